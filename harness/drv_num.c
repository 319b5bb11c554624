// FLAVOUR: plain
/* Runs the calls of a Num behaviour (Quint) and reports their outcomes.
 * usage: drv_num calls IN OUT      lines "op type target m e m e" -> "v m e" | "r errno" | "x status value"
 *        drv_num rows8 OUT         all pairs of operands of the 8-bit types, as ND-JSON
 *        drv_num rows16 OUT        all casts from types of up to 16 bits */
#include "common.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include <float.h>
#include "picotm/picotm.h"
#include "picotm/picotm-arithmetic.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"

typedef __int128 big;
struct val { bool flt; big m; int e; };
struct res { int st; long v; struct val val; };  /* st: 0 value, 1 errno v, 2 other */
static bool passed;

static long double to_ld(struct val v) { return ldexpl((long double)v.m, v.e); }
static struct val of_ld(long double d)
{
    if (isnan(d) || isinf(d)) return (struct val){ true, isnan(d) ? 3 : d < 0 ? -1 : 1, 99999 };
    int e; long double f = frexpl(d, &e);
    return (struct val){ true, (big)ldexpl(f, 64), d == 0 ? 0 : e - 64 };
}
static struct val of_int(big x) { return (struct val){ false, x, 0 }; }
#define IN_int(T, v) ((T)(v).m)
#define IN_flt(T, v) ((T)to_ld(v))
#define OUT_int(x) of_int((big)(x))
#define OUT_flt(x) of_ld((long double)(x))

/* one call as a transaction of its own */
#define RUN(K, RT, CALL) do { \
        volatile RT r_ = 0; static volatile int n; n = 0; passed = false; struct res q = { 0 }; \
        picotm_begin ++n; RT t_ = CALL; passed = true; r_ = t_; \
        picotm_commit \
            switch (picotm_error_status()) { \
            case PICOTM_ERRNO: q.st = 1; q.v = picotm_error_as_errno(); break; \
            default: q.st = 2; q.v = picotm_error_status(); } \
        picotm_end \
        if (n != 1 || passed != (q.st == 0)) { q.st = 3; q.v = n; } \
        if (!q.st) q.val = OUT_##K(r_); \
        return q; } while (0)

#define ARITH1(name, T, K, op) static struct res op##_##name(struct val a, struct val b) { T x = IN_##K(T, a), y = IN_##K(T, b); RUN(K, T, op##_##name##_tx(x, y)); }
#define ARITH(name, T, K) ARITH1(name, T, K, add) ARITH1(name, T, K, sub) ARITH1(name, T, K, mul) ARITH1(name, T, K, div)
#define INTS(X, ...) X(_Bool, _Bool, int, ##__VA_ARGS__) X(char, char, int, ##__VA_ARGS__) X(schar, signed char, int, ##__VA_ARGS__) \
    X(short, short, int, ##__VA_ARGS__) X(int, int, int, ##__VA_ARGS__) X(long, long, int, ##__VA_ARGS__) X(llong, long long, int, ##__VA_ARGS__) \
    X(uchar, unsigned char, int, ##__VA_ARGS__) X(ushort, unsigned short, int, ##__VA_ARGS__) X(uint, unsigned int, int, ##__VA_ARGS__) \
    X(ulong, unsigned long, int, ##__VA_ARGS__) X(ullong, unsigned long long, int, ##__VA_ARGS__)
#define FLTS(X, ...) X(float, float, flt, ##__VA_ARGS__) X(double, double, flt, ##__VA_ARGS__) X(ldouble, long double, flt, ##__VA_ARGS__)
INTS(ARITH)
FLTS(ARITH)
#define CAST(s, S, KS, d, D, KD) static struct res cast_##s##_to_##d(struct val a, struct val b) { S x = IN_##KS(S, a); RUN(KD, D, cast_##s##_to_##d##_tx(x)); }
/* all pairs of types: PAIRS(C) calls C(source..., target...) */
#define T_Bool _Bool, _Bool, int
#define T_char char, char, int
#define T_schar schar, signed char, int
#define T_short short, short, int
#define T_int int, int, int
#define T_long long, long, int
#define T_llong llong, long long, int
#define T_uchar uchar, unsigned char, int
#define T_ushort ushort, unsigned short, int
#define T_uint uint, unsigned int, int
#define T_ulong ulong, unsigned long, int
#define T_ullong ullong, unsigned long long, int
#define T_float float, float, flt
#define T_double double, double, flt
#define T_ldouble ldouble, long double, flt
#define AP(C, ...) C(__VA_ARGS__)
#define TOFLT(C, s) AP(C, s, T_float) AP(C, s, T_double) AP(C, s, T_ldouble)
#define A(C, s) AP(C, s, T_Bool)
#define B(C, s) AP(C, s, T_char)
#define D(C, s) AP(C, s, T_schar)
#define E(C, s) AP(C, s, T_short)
#define F(C, s) AP(C, s, T_int)
#define G(C, s) AP(C, s, T_long)
#define H(C, s) AP(C, s, T_llong)
#define I(C, s) AP(C, s, T_uchar)
#define J(C, s) AP(C, s, T_ushort)
#define K(C, s) AP(C, s, T_uint)
#define L(C, s) AP(C, s, T_ulong)
#define M(C, s) AP(C, s, T_ullong)
#define PAIRS(C) \
  B(C,T_Bool)D(C,T_Bool)E(C,T_Bool)F(C,T_Bool)G(C,T_Bool)H(C,T_Bool)I(C,T_Bool)J(C,T_Bool)K(C,T_Bool)L(C,T_Bool)M(C,T_Bool)TOFLT(C,T_Bool) \
  A(C,T_char)D(C,T_char)E(C,T_char)F(C,T_char)G(C,T_char)H(C,T_char)I(C,T_char)J(C,T_char)K(C,T_char)L(C,T_char)M(C,T_char)TOFLT(C,T_char) \
  A(C,T_schar)B(C,T_schar)E(C,T_schar)F(C,T_schar)G(C,T_schar)H(C,T_schar)I(C,T_schar)J(C,T_schar)K(C,T_schar)L(C,T_schar)M(C,T_schar)TOFLT(C,T_schar) \
  A(C,T_short)B(C,T_short)D(C,T_short)F(C,T_short)G(C,T_short)H(C,T_short)I(C,T_short)J(C,T_short)K(C,T_short)L(C,T_short)M(C,T_short)TOFLT(C,T_short) \
  A(C,T_int)B(C,T_int)D(C,T_int)E(C,T_int)G(C,T_int)H(C,T_int)I(C,T_int)J(C,T_int)K(C,T_int)L(C,T_int)M(C,T_int)TOFLT(C,T_int) \
  A(C,T_long)B(C,T_long)D(C,T_long)E(C,T_long)F(C,T_long)H(C,T_long)I(C,T_long)J(C,T_long)K(C,T_long)L(C,T_long)M(C,T_long)TOFLT(C,T_long) \
  A(C,T_llong)B(C,T_llong)D(C,T_llong)E(C,T_llong)F(C,T_llong)G(C,T_llong)I(C,T_llong)J(C,T_llong)K(C,T_llong)L(C,T_llong)M(C,T_llong)TOFLT(C,T_llong) \
  A(C,T_uchar)B(C,T_uchar)D(C,T_uchar)E(C,T_uchar)F(C,T_uchar)G(C,T_uchar)H(C,T_uchar)J(C,T_uchar)K(C,T_uchar)L(C,T_uchar)M(C,T_uchar)TOFLT(C,T_uchar) \
  A(C,T_ushort)B(C,T_ushort)D(C,T_ushort)E(C,T_ushort)F(C,T_ushort)G(C,T_ushort)H(C,T_ushort)I(C,T_ushort)K(C,T_ushort)L(C,T_ushort)M(C,T_ushort)TOFLT(C,T_ushort) \
  A(C,T_uint)B(C,T_uint)D(C,T_uint)E(C,T_uint)F(C,T_uint)G(C,T_uint)H(C,T_uint)I(C,T_uint)J(C,T_uint)L(C,T_uint)M(C,T_uint)TOFLT(C,T_uint) \
  A(C,T_ulong)B(C,T_ulong)D(C,T_ulong)E(C,T_ulong)F(C,T_ulong)G(C,T_ulong)H(C,T_ulong)I(C,T_ulong)J(C,T_ulong)K(C,T_ulong)M(C,T_ulong)TOFLT(C,T_ulong) \
  A(C,T_ullong)B(C,T_ullong)D(C,T_ullong)E(C,T_ullong)F(C,T_ullong)G(C,T_ullong)H(C,T_ullong)I(C,T_ullong)J(C,T_ullong)K(C,T_ullong)L(C,T_ullong)TOFLT(C,T_ullong) \
  AP(C,T_float,T_double)AP(C,T_float,T_ldouble)AP(C,T_double,T_float)AP(C,T_double,T_ldouble)AP(C,T_ldouble,T_float)AP(C,T_ldouble,T_double)
PAIRS(CAST)

/* types of the application: ranges that are smaller than those of their C types */
typedef float float100;
typedef signed char nibble;
typedef unsigned char percent;
typedef int milli;
#define APPDST(C, ...) C(__VA_ARGS__, port, int, int, 1024, 65535) C(__VA_ARGS__, digit, unsigned char, int, 1, 9) C(__VA_ARGS__, centi, signed char, int, -100, 100) \
    C(__VA_ARGS__, hour, short, int, 10, 12) C(__VA_ARGS__, wide, long long, int, 1, 40000) C(__VA_ARGS__, size16, unsigned long, int, 16, 300) \
    C(__VA_ARGS__, words, unsigned int, int, 0, 1000) C(__VA_ARGS__, depth, int, int, -100, -10) C(__VA_ARGS__, float100, float100, flt, -100, 100) C(__VA_ARGS__, gauge, double, flt, 2, 250)
#define APPDEF(s, S, KS, d, D, KD, lo, hi) PICOTM_CAST_TX(s, S, d, D, lo, hi) CAST(s, S, KS, d, D, KD)
#define APPSRC(X, C) X(C, _Bool, _Bool, int) X(C, char, char, int) X(C, schar, signed char, int) X(C, short, short, int) X(C, int, int, int) X(C, long, long, int) \
    X(C, llong, long long, int) X(C, uchar, unsigned char, int) X(C, ushort, unsigned short, int) X(C, uint, unsigned int, int) X(C, ulong, unsigned long, int) X(C, ullong, unsigned long long, int)
#define APP(C, ...) APPDST(C, __VA_ARGS__)
APPSRC(APP, APPDEF)
#define P_(T) static inline T plus_##T(T a, T b) { return a + b; } static inline T minus_##T(T a, T b) { return a - b; } \
    static inline T times_##T(T a, T b) { return a * b; } static inline T over_##T(T a, T b) { return a / b; }
P_(float100) P_(nibble) P_(percent) P_(milli)
#define APPARITH(KIND, T, K, ...) \
    PICOTM_ARITHMETIC_ADD_##KIND##_TX(T, T, __VA_ARGS__, 0, plus_##T, minus_##T) PICOTM_ARITHMETIC_SUB_##KIND##_TX(T, T, __VA_ARGS__, 0, plus_##T, minus_##T) \
    PICOTM_ARITHMETIC_MUL_##KIND##_TX(T, T, __VA_ARGS__, 1, 0, times_##T, over_##T) PICOTM_ARITHMETIC_DIV_##KIND##_TX(T, T, __VA_ARGS__, 1, 0, times_##T, over_##T) ARITH(T, T, K)
APPARITH(S, nibble, int, -8, 7)
APPARITH(S, milli, int, -64, 63)
APPARITH(U, percent, int, 0, 100)
APPARITH(F, float100, flt, 100)

static const struct { const char *op, *ty, *dst; struct res (*f)(struct val, struct val); int smin, smax; } tab[] = {
#define ENT(name, T, KK) { "add", #name, #name, add_##name }, { "sub", #name, #name, sub_##name }, { "mul", #name, #name, mul_##name }, { "div", #name, #name, div_##name },
    INTS(ENT) FLTS(ENT)
#define CENT(s, S, KS, d, DD, KD) { "cast", #s, #d, cast_##s##_to_##d },
    PAIRS(CENT)
#define AENT(s, S, KS, d, DD, KD, lo, hi) CENT(s, S, KS, d, DD, KD)
    APPSRC(APP, AENT)
    ENT(nibble, , ) ENT(milli, , ) ENT(percent, , ) ENT(float100, , )
};
static bool app_type(const char* n)
{
    static const char* const t[] = { "port", "digit", "centi", "hour", "wide", "size16", "words", "depth", "float100", "gauge" };
    for (size_t i = 0; i < sizeof t / sizeof *t; ++i) if (!strcmp(n, t[i])) return true;
    return false;
}
#define NTAB (sizeof tab / sizeof tab[0])
static big parse(const char* s)
{
    bool neg = *s == '-'; big r = 0;
    for (s += neg; *s; ++s) r = r * 10 + (*s - '0');
    return neg ? -r : r;
}
static void put(FILE* f, big x)
{
    char b[60]; int n = 0; bool neg = x < 0; unsigned __int128 u = neg ? -(unsigned __int128)x : x;
    do b[n++] = '0' + (int)(u % 10); while (u /= 10);
    if (neg) fputc('-', f);
    while (n) fputc(b[--n], f);
}
static void calls(const char* in, const char* out)
{
    FILE* i = fopen(in, "r"); FILE* o = fopen(out, "w");
    char op[16], ty[16], dst[16], am[64], bm[64]; int ae, be;
    while (fscanf(i, "%15s %15s %15s %63s %d %63s %d", op, ty, dst, am, &ae, bm, &be) == 7) {
        size_t k = 0;
        while (k < NTAB && (strcmp(tab[k].op, op) || strcmp(tab[k].ty, ty) || strcmp(tab[k].dst, dst))) ++k;
        if (k == NTAB) { fprintf(o, "x unknown 0\n"); continue; }
        struct res r = tab[k].f((struct val){ 0, parse(am), ae }, (struct val){ 0, parse(bm), be });
        if (r.st == 0) { fputs("v ", o); put(o, r.val.m); fprintf(o, " %d\n", r.val.e); }
        else if (r.st == 1) fprintf(o, "r %ld\n", r.v);
        else fprintf(o, "x %d %ld\n", r.st, r.v);
        fflush(o);
    }
    fclose(i); fclose(o);
}
/* values as they are; 1000000 range error, 1000001 domain error, 1000002 anything else */
static int code(struct res r)
{
    if (r.st == 0) return (r.val.m > 900000 || r.val.m < -900000) ? 1000002 : (int)r.val.m;
    return r.st != 1 ? 1000002 : r.v == ERANGE ? 1000000 : r.v == EDOM ? 1000001 : 1000002;
}
static const struct { const char* n; int lo, hi; } small[] = { { "_Bool", 0, 1 }, { "char", -128, 127 }, { "schar", -128, 127 }, { "uchar", 0, 255 }, { "short", -32768, 32767 }, { "ushort", 0, 65535 },
    /* with targets of the application only */
    { "int", -66000, 66000 }, { "long", -66000, 66000 }, { "llong", -66000, 66000 }, { "uint", 0, 66000 }, { "ulong", 0, 66000 }, { "ullong", 0, 66000 } };
static const struct { const char* n; int lo, hi; } opnd[] = { { "_Bool", 0, 1 }, { "char", -128, 127 }, { "schar", -128, 127 }, { "uchar", 0, 255 },
    { "nibble", -8, 7 }, { "milli", -64, 63 }, { "percent", 0, 100 }, { "float100", -100, 100 } };
static void rows8(const char* out)
{
    FILE* o = fopen(out, "w");
    for (size_t k = 0; k < NTAB; ++k)
        for (int t = 0; t < 8; ++t)
            if (!strcmp(tab[k].ty, opnd[t].n) && strcmp(tab[k].op, "cast") && (strcmp(tab[k].ty, "float100") || strcmp(tab[k].op, "div")))
                for (int a = opnd[t].lo; a <= opnd[t].hi; ++a) {
                    fprintf(o, "{\"op\":\"%s\",\"ty\":\"%s\",\"dst\":\"%s\",\"a\":%d,\"row\":[", tab[k].op, opnd[t].n, opnd[t].n, a);
                    for (int b = opnd[t].lo; b <= opnd[t].hi; ++b)
                        {
                        struct res r = tab[k].f(of_int(a), of_int(b));
                        if (!r.st && r.val.flt) r.val = of_int((big)to_ld(r.val));
                        fprintf(o, "%s%d", b > opnd[t].lo ? "," : "", code(r));
                    }
                    fprintf(o, "]}\n");
                }
    fclose(o);
}
static void rows16(const char* out)
{
    FILE* o = fopen(out, "w");
    for (size_t k = 0; k < NTAB; ++k) {
        if (strcmp(tab[k].op, "cast")) continue;
        for (int t = 0; t < 12; ++t)
            if (!strcmp(tab[k].ty, small[t].n) && (t < 6 || app_type(tab[k].dst)))
                for (int a = small[t].lo; a <= small[t].hi; a += 512) {
                    fprintf(o, "{\"op\":\"cast\",\"ty\":\"%s\",\"dst\":\"%s\",\"a\":%d,\"row\":[", small[t].n, tab[k].dst, a);
                    for (int b = a; b <= small[t].hi && b < a + 512; ++b) {
                        struct res r = tab[k].f(of_int(b), of_int(0));
                        if (!r.st && r.val.flt) r.val = of_int((big)to_ld(r.val));
                        fprintf(o, "%s%d", b > a ? "," : "", code(r));
                    }
                    fprintf(o, "]}\n");
                }
    }
    fclose(o);
}
int main(int argc, char** argv)
{
    crash_install();
    if (argc == 4 && !strcmp(argv[1], "calls")) calls(argv[2], argv[3]);
    else if (argc == 3 && !strcmp(argv[1], "rows8")) rows8(argv[2]);
    else if (argc == 3 && !strcmp(argv[1], "rows16")) rows16(argv[2]);
    else return 3;
    return 0;
}
