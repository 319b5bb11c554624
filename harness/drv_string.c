// FLAVOUR: plain
/* C string and memory functions in transactions. usage: drv_string string SEED FIRST N OUT */
#include "txshell.h"
#include "picotm/picotm-tm.h"
#include "picotm/string.h"
#include "picotm/stdio.h"
#include "picotm/stdlib.h"
#include "picotm/time.h"
#include "picotm/string-tm.h"
#include "picotm/stdio-tm.h"
#include "picotm/stdlib-tm.h"
#include <locale.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>

#define N 80
static char *reg, *shd;            /* the region, and the driver's own idea of the transaction's view */
static char *sv_tx, *sv_pl, *sv_base;
static locale_t c_locale;
static int bytecmp(const void* x, const void* y) { return *(const unsigned char*)x - *(const unsigned char*)y; }

/* conversions of printf: index, conversion, type of the argument */
#define PF(X) X(0, "d", int) X(1, "i", int) X(2, "u", int) X(3, "o", int) X(4, "x", int) X(5, "ld", long) X(6, "lu", long) X(7, "lx", long) \
  X(8, "jd", intmax_t) X(9, "zu", size_t) X(10, "td", ptrdiff_t) X(11, "f", double) X(12, "Lf", long double) X(13, "lf", double) X(14, "g", double) \
  X(15, "c", int) X(16, "X", int) X(17, "p", void*) X(18, "lo", long) X(19, "ju", intmax_t) X(20, "Lg", long double) X(21, "lg", double) X(22, "li", long) X(23, "jx", intmax_t)
#define NPF 24
#define PN(X) X(0, "n", int) X(1, "ln", long) X(2, "jn", intmax_t) X(3, "zn", ssize_t) X(4, "tn", ptrdiff_t)
#define NPN 5
/* conversions of scanf: index, conversion, type of the output, base (16: hexadecimal; 1: floating point) */
#define SF(X) X(0, "d", int, 10) X(1, "i", int, 10) X(2, "u", unsigned, 10) X(3, "o", unsigned, 8) X(4, "x", unsigned, 16) X(5, "ld", long, 10) X(6, "li", long, 10) \
  X(7, "lo", long, 8) X(8, "lu", long, 10) X(9, "lx", long, 16) X(10, "jd", intmax_t, 10) X(11, "ju", intmax_t, 10) X(12, "zu", size_t, 10) X(13, "td", ptrdiff_t, 10) \
  X(14, "f", float, 1) X(15, "e", float, 1) X(16, "g", float, 1) X(17, "lf", double, 1) X(18, "Lf", long double, 1) X(19, "lg", double, 1) X(20, "zd", ssize_t, 10) X(21, "jx", intmax_t, 16) X(22, "a", float, 1) X(23, "X", unsigned, 16) X(24, "G", float, 1)
#define NSF 25
#define SFB(i, c, t, b) b,
static const int sf_base[] = { SF(SFB) };
#define SFZ(i, c, t, b) sizeof(t),
static const int sf_size[] = { SF(SFZ) };
#define PNZ(i, c, t) sizeof(t),
static const int pn_size[] = { PN(PNZ) };
#define PRIVTM() (void)0
#define FUNS(X) X(load) X(store) X(privload) X(privstore) X(memccpy) X(memchr) X(memrchr) X(rawmemchr) X(memcmp) X(memcpy) X(memmove) X(memset) \
  X(stpcpy) X(strcpy) X(stpncpy) X(strncpy) X(strcat) X(strncat) X(strchr) X(strrchr) X(strcmp) X(strcoll_l) X(strncmp) X(strcspn) X(strspn) X(strpbrk) \
  X(strlen) X(strnlen) X(strdup) X(strndup) X(strstr) X(strtok_r) X(printf_s) X(printf_d) X(printf_sx) X(scanf_d) X(strftime) X(qsort) X(pf) X(pn) X(sf) X(strerror_g) X(strerror_p) X(rand_r) X(strptime) X(strftime_r)
#define EN(x) F_##x,
enum { FUNS(EN) NFUN };
#define NM(x) #x,
static const char* names[] = { FUNS(NM) };

static char* __strerror_r_gnu(int e, char* b, size_t n) { return strerror_r(e, b, n); }
extern int __xpg_strerror_r(int, char*, size_t);
static int __strerror_r_posix(int e, char* b, size_t n) { return __xpg_strerror_r(e, b, n); }
#define F(x) x
#define OPS ops_plain
#define LOAD(p, b, n) memcpy(b, p, n)
#define STORE(p, b, n) memcpy(p, b, n)
#define PRIV(p, n, fl) (void)0
#define SAVE sv_pl
#include "string_ops.inc"
#undef F
#undef OPS
#undef LOAD
#undef STORE
#undef PRIV
#undef SAVE
#define F(x) x##_tx
#define OPS ops_tx
#define LOAD(p, b, n) load_tx(p, b, n)
#define STORE(p, b, n) store_tx(p, b, n)
#define PRIV(p, n, fl) privatize_tx(p, n, fl)
#define SAVE sv_tx
#include "string_ops.inc"
#undef F
#undef OPS
#undef PRIVTM
/* the functions for privatized memory */
#define F(x) x##_tm
#define OPS ops_tm
#define PRIVTM() (privatize_tx(reg, N, PICOTM_TM_PRIVATIZE_LOADSTORE), privatize_tx(&sv_tx, sizeof sv_tx, PICOTM_TM_PRIVATIZE_LOADSTORE))
#define strftime_tm strftime_tx
#define strftime_l_tm strftime_l_tx
#define strptime_tm strptime_tx
#include "string_ops.inc"

static char* mkregion(void)
{
    char* p = mmap(NULL, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 8192, 4096, PROT_NONE);
    memset(p, 0xa5, 8192);
    return p + 8192 - N;
}
static int guard(void) { for (int i = 1; i <= 512; ++i) if ((unsigned char)reg[-i] != 0xa5) return 0; return 1; }
static unsigned char byte(uint64_t* s) { static const unsigned char b[] = { 0, 'a', 'b', 'c', 'a', '1', '7', 228, 'b', 255 }; return b[rg(s) % 10]; }
static int term(long p) { return p < N && memchr(shd + p, 0, N - p) != NULL; }
static int disj(long p, long n, long q, long m) { return p + n <= q || q + m <= p || !n || !m; }
static long len(long p) { return strlen(shd + p); }
static long pos(uint64_t* s) { return rg(s) % N; }
static long cnt(uint64_t* s, long p) { long m = N - p; long n = rg(s) % (rg(s) & 1 ? m + 1 : (m < 8 ? m : 8) + 1); return n; }
static long chr(uint64_t* s) { static const long c[] = { 0, 'a', 'b', 'c', 228, -28, 'a' + 256, 'z', '1' }; return c[rg(s) % 9]; }
static long upto(uint64_t* s, long m) { return rg(s) % (m + 1); }
/* arguments of a legal call; 0 if there are none */
static int legal(int f, uint64_t* s, long* a)
{
    a[0] = pos(s); a[1] = pos(s); a[2] = a[3] = a[4] = 0;
    long big = 0;
    switch (f) {
    case F_load: case F_privload: case F_store: case F_privstore: a[1] = cnt(s, a[0]); return 1;
    case F_memccpy: {
        a[2] = chr(s); a[3] = upto(s, 2 * N);
        char* q = memchr(shd + a[1], (int)a[2], a[3] < N - a[1] ? a[3] : N - a[1]);
        long k = q ? q - (shd + a[1]) + 1 : a[3];
        return (q || a[1] + a[3] <= N) && a[0] + k <= N && disj(a[0], k, a[1], k); }
    case F_memchr: case F_memrchr: a[1] = chr(s); a[2] = cnt(s, a[0]); return 1;
    case F_rawmemchr: a[1] = chr(s); return memchr(shd + a[0], (int)a[1], N - a[0]) != NULL;
    case F_memcmp: if (rg(s) & 1) a[1] = a[0]; a[2] = cnt(s, a[0] > a[1] ? a[0] : a[1]); return 1;
    case F_memcpy: a[2] = cnt(s, a[0] > a[1] ? a[0] : a[1]); return disj(a[0], a[2], a[1], a[2]);
    case F_memmove: if (rg(s) & 1) { a[0] = rg(s) % 12; a[1] = rg(s) % 12; } a[2] = cnt(s, a[0] > a[1] ? a[0] : a[1]); return 1;
    case F_memset: a[1] = chr(s); a[2] = cnt(s, a[0]); return 1;
    case F_stpcpy: case F_strcpy: return term(a[1]) && a[0] + len(a[1]) + 1 <= N && disj(a[0], len(a[1]) + 1, a[1], len(a[1]) + 1);
    case F_stpncpy: case F_strncpy: a[2] = cnt(s, a[0]); big = strnlen(shd + a[1], a[2] < N - a[1] ? a[2] : N - a[1]);
        return (term(a[1]) || a[1] + a[2] <= N) && disj(a[0], a[2], a[1], big + 1);
    case F_strcat: return term(a[0]) && term(a[1]) && a[0] + len(a[0]) + len(a[1]) + 1 <= N && disj(a[0], len(a[0]) + len(a[1]) + 1, a[1], len(a[1]) + 1);
    case F_strncat: a[2] = upto(s, N); if (!term(a[0]) || !(term(a[1]) || a[1] + a[2] <= N)) return 0;
        big = strnlen(shd + a[1], a[2] < N - a[1] ? a[2] : N - a[1]);
        return a[0] + len(a[0]) + big + 1 <= N && disj(a[0], len(a[0]) + big + 1, a[1], big + 1);
    case F_strchr: case F_strrchr: a[1] = chr(s); return term(a[0]);
    case F_strcmp: case F_strcoll_l: case F_strcspn: case F_strspn: case F_strpbrk: case F_strstr:
        if (rg(s) % 4 == 0) a[1] = a[0]; return term(a[0]) && term(a[1]);
    case F_strncmp: if (rg(s) & 1) { a[1] = a[0]; } a[2] = upto(s, N); return (term(a[0]) || a[0] + a[2] <= N) && (term(a[1]) || a[1] + a[2] <= N);
    case F_strlen: case F_strdup: return term(a[0]);
    case F_strnlen: case F_strndup: a[1] = upto(s, N); return term(a[0]) || a[0] + a[1] <= N;
    case F_strtok_r: if (rg(s) & 1) a[0] = -1;
        if (!term(a[1])) return 0;
        if (a[0] >= 0) return term(a[0]) && disj(a[0], len(a[0]) + 1, a[1], len(a[1]) + 1);
        return sv_pl && term(sv_pl - shd) && disj(sv_pl - shd, len(sv_pl - shd) + 1, a[1], len(a[1]) + 1);
    case F_printf_s: case F_printf_sx: a[2] = pos(s); a[3] = rg(s) % 100000; a[1] = cnt(s, a[0]); return term(a[2]) && disj(a[0], a[1], a[2], len(a[2]) + 1);
    case F_printf_d: a[1] = cnt(s, a[0]); a[2] = (long)(rg(s) % 20001) - 10000; return 1;
    case F_scanf_d: { unsigned char c = shd[a[0]]; if (!term(a[0]) || !c || (c == ' ') || c == '-' || c == '+') return 0;
        long k = strspn(shd + a[0], "0123456789"); return k < 6 && a[1] + 4 <= N && disj(a[0], len(a[0]) + 1, a[1], 4); }
    case F_strftime: a[2] = rg(s) % 24; a[3] = rg(s) % 60; a[1] = cnt(s, a[0]); return a[1] >= 6;
    case F_pf: a[2] = pos(s); a[3] = rg(s) % NPF; a[4] = a[3] == 15 ? "abc17"[rg(s) % 5] : rg(s) % 20000; a[1] = cnt(s, a[0]);
        if ((0x707d23 >> a[3] & 1) && (rg(s) & 1)) a[4] = -a[4]; /* signed ones */
        if (a[3] == 17) ++a[4];
        return term(a[2]) && disj(a[0], a[1], a[2], len(a[2]) + 1);
    case F_pn: a[2] = pos(s); a[3] = rg(s) % NPN; a[4] = pos(s); a[1] = cnt(s, a[0]);
        return term(a[2]) && disj(a[0], a[1], a[2], len(a[2]) + 1) && a[4] + pn_size[a[3]] <= N && disj(a[4], pn_size[a[3]], a[0], a[1]) && disj(a[4], pn_size[a[3]], a[2], len(a[2]) + 1);
    case F_sf: { a[3] = rg(s) % NSF; a[4] = pos(s); int z = sf_size[a[3]], ba = sf_base[a[3]];
        if (!term(a[0]) || a[1] + z > N || a[4] + 4 > N || !disj(a[0], len(a[0]) + 1, a[1], z) || !disj(a[0], len(a[0]) + 1, a[4], 4) || !disj(a[1], z, a[4], 4)) return 0;
        unsigned char c = shd[a[0]];
        if (!strchr(ba == 16 ? "123456789abcdefABCDEF" : "123456789abc<%|", c) || !c) return 0;
        long k = strspn(shd + a[0], ba == 8 ? "01234567" : ba == 16 ? "0123456789abcdefABCDEF" : "0123456789");
        return k < 6 && !strchr(".eEpPxX", shd[a[0] + k] ? shd[a[0] + k] : 'a'); }
    case F_strerror_g: a[2] = (long[]){ 1, 5, 9999 }[rg(s) % 3]; a[1] = cnt(s, a[0]); return 1;
    case F_strerror_p: a[2] = (long[]){ 1, 5 }[rg(s) % 2]; a[1] = cnt(s, a[0]); return a[1] > (a[2] == 1 ? 23 : 18);
    case F_rand_r: return a[0] + 4 <= N;
    case F_strptime: { if (rg(s) % 4) a[1] = N - sizeof(struct tm); if (a[1] + (long)sizeof(struct tm) > N) return 0;
        for (int k = 0; k < N - 5; ++k) { const char* q = shd + k;
            if (q[0] >= '0' && q[0] <= '1' && q[1] >= '0' && q[1] <= '9' && q[2] == ':' && q[3] >= '0' && q[3] <= '5' && q[4] >= '0' && q[4] <= '9' && term(k) && disj(k, len(k) + 1, a[1], sizeof(struct tm))) { a[0] = k; return 1; } }
        return 0; }
    case F_strftime_r: { int h, m; if (a[2] = pos(s), a[2] + (long)sizeof(struct tm) > N) return 0;
        if (rg(s) & 1) for (int k = 0; k + (long)sizeof(struct tm) <= N; ++k) { memcpy(&m, shd + k + 4, 4); memcpy(&h, shd + k + 8, 4); if (h >= 0 && h < 24 && m >= 0 && m < 60) { a[2] = k; break; } }
        a[0] = rg(s) % 19; a[1] = 6 + rg(s) % (24 - a[0] - 5);
        memcpy(&m, shd + a[2] + 4, 4); memcpy(&h, shd + a[2] + 8, 4);
        return a[1] >= 6 && h >= 0 && h < 24 && m >= 0 && m < 60 && disj(a[0], a[1], a[2], sizeof(struct tm)); }
    case F_qsort: a[1] = cnt(s, a[0]); return a[1] <= 14;
    }
    return 0;
}
static void sh_op(uint64_t* s, int i)
{
    long a[5]; unsigned char in[N], o[N + 1], o2[N + 1]; int on = 0, on2 = 0;
    if (i == 0) { memcpy(shd, reg, N); sv_pl = sv_tx ? shd + (sv_tx - reg) : NULL; }
    int f;
    do f = rg(s) % NFUN; while (!legal(f, s, a));
    for (int k = 0; k < N; ++k) in[k] = byte(s);
    long p = ops_plain(f, shd, a, in, o, &on);
    int tm = rg(s) % 4 == 0;
    long r = tm ? ops_tm(f, reg, a, in, o2, &on2) : ops_tx(f, reg, a, in, o2, &on2);
    const char* ins = f == F_rand_r ? tr_bytes(shd + a[0], 4) : tr_bytes(in, f == F_store || f == F_privstore ? a[1] : 0);
    if (f == F_rand_r) a[1] = p;
    tr("{\"e\":\"call\",\"f\":\"%s\",\"a\":[%ld,%ld,%ld,%ld,%ld],\"b\":%s,\"r\":%ld,\"p\":%ld,\"o\":%s,\"g\":%d,\"tm\":%d}", names[f], a[0], a[1], a[2], a[3], a[4], ins, r, p, tr_bytes(o2, on2), guard(), tm);
}
static void sh_look(void) { tr("{\"e\":\"look\",\"m\":%s,\"g\":%d}", tr_bytes(reg, N), guard()); }
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    reg = mkregion(); shd = mkregion();
    c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        alarm(15);
        for (int k = 0; k < N; ++k) reg[k] = byte(&s);
        if (rg(&s) & 3) reg[N - 1] = 0;
        if (rg(&s) % 4 == 0) memcpy(reg + rg(&s) % 4, "17:42", 6);
        sv_tx = NULL;
        tr("{\"e\":\"reset\",\"run\":%d,\"m\":%s}", i, tr_bytes(reg, N));
        int ntx = 1 + rg(&s) % 3;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), 10); sh.looks = 1;
            sh_run();
            sh_look();
        }
    }
    tr_flush();
    return 0;
}
