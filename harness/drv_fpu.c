// FLAVOUR: plain
// LIBS: -lm
/* Math functions and the floating-point environment in transactions. usage: drv_fpu fpu SEED FIRST N OUT */
#include "txshell.h"
#include "picotm/math.h"
#include "picotm/math-tm.h"
#include "picotm/complex.h"
#include "picotm/picotm-libm.h"
#include <complex.h>
#include <errno.h>
#include <fenv.h>
#include <float.h>
#include <limits.h>
#include <math.h>

typedef long double ld;
typedef double complex cd; typedef float complex cf; typedef long double complex cl;
typedef struct { union { double d; float f; ld l; cd cd; cf cf; cl cl; long i; long long ll; } v; union { int i; double d; float f; ld l; } o; } R;
typedef struct { double d[3]; float f[3]; ld l[3]; int i; long n; cd cd[2]; cf cf[2]; cl cl[2]; const char* s; } A;
/* what a call writes to */
static union { int i; double d; float f; ld l; } out;
static volatile int vi; /* keeps calls from being folded */

enum { T_D, T_F, T_L, T_CD, T_CF, T_CL, T_I, T_LL };
enum { O_NONE, O_I, O_D, O_F, O_L };
typedef struct { const char* name; int rt, ot, rep; void (*plain)(const A*, R*); void (*tx)(const A*, R*); } Fn;

#define DEF(n, T, fld, args) \
  static __attribute__((noinline)) void p_##n(const A* a, R* r) { (void)vi; r->v.fld = n args; (void)vi; } \
  static __attribute__((noinline)) void t_##n(const A* a, R* r) { r->v.fld = n##_tx args; }
/* results by pointer: the transactional call writes to the observed location */
#define DEFO(n, fld, pre, of) \
  static __attribute__((noinline)) void p_##n(const A* a, R* r) { r->v.fld = n (pre, &r->o.of); } \
  static __attribute__((noinline)) void t_##n(const A* a, R* r) { r->v.fld = n##_tx (pre, &out.of); r->o = *(__typeof__(r->o)*)&out; }
#define C ,
#define U1(X) X(acos) X(acosh) X(asin) X(asinh) X(atan) X(atanh) X(cos) X(cosh) X(erf) X(erfc) X(exp) X(exp2) X(expm1) \
  X(lgamma) X(log) X(log10) X(log1p) X(log2) X(logb) X(sin) X(sinh) X(sqrt) X(tan) X(tanh) X(tgamma) X(ilogb)
#define U1Q(X) X(cbrt) X(ceil) X(fabs) X(floor) X(nearbyint) X(rint) X(round) X(trunc)
#define U2(X) X(atan2) X(fdim) X(fmod) X(hypot) X(nextafter) X(pow) X(remainder)
#define U2Q(X) X(copysign) X(fmax) X(fmin)
#define UC(X) X(cacos) X(cacosh) X(casin) X(casinh) X(catan) X(catanh) X(ccos) X(ccosh) X(cexp) X(clog) X(conj) X(cproj) X(csin) X(csinh) X(csqrt) X(ctan) X(ctanh)
#define UCR(X) X(cabs) X(carg) X(cimag) X(creal)

#define V1(n) DEF(n, T_D, d, (a->d[0])) DEF(n##f, T_F, f, (a->f[0])) DEF(n##l, T_L, l, (a->l[0]))
#define V2(n) DEF(n, T_D, d, (a->d[0], a->d[1])) DEF(n##f, T_F, f, (a->f[0], a->f[1])) DEF(n##l, T_L, l, (a->l[0], a->l[1]))
#define VC(n) DEF(n, T_CD, cd, (a->cd[0])) DEF(n##f, T_CF, cf, (a->cf[0])) DEF(n##l, T_CL, cl, (a->cl[0]))
#define VCR(n) DEF(n, T_D, d, (a->cd[0])) DEF(n##f, T_F, f, (a->cf[0])) DEF(n##l, T_L, l, (a->cl[0]))
U1(V1) U1Q(V1) U2(V2) U2Q(V2) UC(VC) UCR(VCR)
DEF(cpow, T_CD, cd, (a->cd[0], a->cd[1])) DEF(cpowf, T_CF, cf, (a->cf[0], a->cf[1])) DEF(cpowl, T_CL, cl, (a->cl[0], a->cl[1]))
DEF(fma, T_D, d, (a->d[0], a->d[1], a->d[2])) DEF(fmaf, T_F, f, (a->f[0], a->f[1], a->f[2])) DEF(fmal, T_L, l, (a->l[0], a->l[1], a->l[2]))
DEF(nexttoward, T_D, d, (a->d[0], a->l[1])) DEF(nexttowardf, T_F, f, (a->f[0], a->l[1])) DEF(nexttowardl, T_L, l, (a->l[0], a->l[1]))
#define VI(n, g) DEF(n, T_D, d, (a->d[0], g)) DEF(n##f, T_F, f, (a->f[0], g)) DEF(n##l, T_L, l, (a->l[0], g))
VI(ldexp, a->i) VI(scalbn, a->i) VI(scalbln, a->n)
#define VR(n, f_, T) DEF(n, T, f_, (a->d[0])) DEF(n##f, T, f_, (a->f[0])) DEF(n##l, T, f_, (a->l[0]))
VR(lrint, i, T_I) VR(lround, i, T_I) VR(llrint, ll, T_LL) VR(llround, ll, T_LL)
DEF(j0, T_D, d, (a->d[0])) DEF(j1, T_D, d, (a->d[0])) DEF(y0, T_D, d, (a->d[0])) DEF(y1, T_D, d, (a->d[0]))
DEF(jn, T_D, d, (a->i % 40, a->d[0])) DEF(yn, T_D, d, (a->i % 40, a->d[0]))
DEF(nan, T_D, d, (a->s)) DEF(nanf, T_F, f, (a->s)) DEF(nanl, T_L, l, (a->s))
DEFO(frexp, d, a->d[0], i) DEFO(frexpf, f, a->f[0], i) DEFO(frexpl, l, a->l[0], i)
DEFO(modf, d, a->d[0], d) DEFO(modff, f, a->f[0], f) DEFO(modfl, l, a->l[0], l)
DEFO(remquo, d, a->d[0] C a->d[1], i) DEFO(remquof, f, a->f[0] C a->f[1], i) DEFO(remquol, l, a->l[0] C a->l[1], i)

#define E_(n, T, o, rep) { #n, T, o, rep, p_##n, t_##n },
#define E3(n, o1, o2, o3, rep) E_(n, T_D, o1, rep) E_(n##f, T_F, o2, rep) E_(n##l, T_L, o3, rep)
#define ER(n) E3(n, 0, 0, 0, 1)
#define EQ(n) E3(n, 0, 0, 0, 0)
#define EC(n) E_(n, T_CD, 0, 0) E_(n##f, T_CF, 0, 0) E_(n##l, T_CL, 0, 0)
static const Fn fns[] = {
  U1(ER) U1Q(EQ) U2(ER) U2Q(EQ) UC(EC) UCR(EQ) EC(cpow) ER(fma) ER(nexttoward) ER(ldexp) ER(scalbn) ER(scalbln)
#define EI(n, T) E_(n, T, 0, 1) E_(n##f, T, 0, 1) E_(n##l, T, 0, 1)
  EI(lrint, T_I) EI(lround, T_I) EI(llrint, T_LL) EI(llround, T_LL)
  E_(j0, T_D, 0, 1) E_(j1, T_D, 0, 1) E_(y0, T_D, 0, 1) E_(y1, T_D, 0, 1) E_(jn, T_D, 0, 1) E_(yn, T_D, 0, 1)
  EQ(nan) E3(frexp, O_I, O_I, O_I, 0) E3(modf, O_D, O_F, O_L, 0) E3(remquo, O_I, O_I, O_I, 1)
};
#define NF ((int)(sizeof fns / sizeof *fns))

static char* hex(char* p, const void* v, int n, int isnan_)
{
    if (isnan_) return p + sprintf(p, "nan");
    for (int i = n - 1; i >= 0; --i) p += sprintf(p, "%02x", ((const unsigned char*)v)[i]);
    return p;
}
static char* fD(char* p, double x) { return hex(p, &x, 8, x != x); }
static char* fF(char* p, float x) { return hex(p, &x, 4, x != x); }
static char* fL(char* p, ld x) { return hex(p, &x, 10, x != x); }
static char* show(char* buf, const Fn* f, const R* r)
{
    char* p = buf;
    fenv_t e; feholdexcept(&e);
    /* the sign of a zero result of fmin() and fmax() is unspecified */
    R q = *r; r = &q;
    if (!strncmp(f->name, "fmin", 4) || !strncmp(f->name, "fmax", 4)) {
        if (f->rt == T_D && q.v.d == 0) q.v.d = 0; if (f->rt == T_F && q.v.f == 0) q.v.f = 0; if (f->rt == T_L && q.v.l == 0) q.v.l = 0;
    }
    switch (f->rt) {
    case T_D: p = fD(p, r->v.d); break;
    case T_F: p = fF(p, r->v.f); break;
    case T_L: p = fL(p, r->v.l); break;
    case T_CD: p = fD(p, __real__ r->v.cd); *p++ = ' '; p = fD(p, __imag__ r->v.cd); break;
    case T_CF: p = fF(p, __real__ r->v.cf); *p++ = ' '; p = fF(p, __imag__ r->v.cf); break;
    case T_CL: p = fL(p, __real__ r->v.cl); *p++ = ' '; p = fL(p, __imag__ r->v.cl); break;
    case T_I: p += sprintf(p, "%ld", r->v.i); break;
    case T_LL: p += sprintf(p, "%lld", r->v.ll); break;
    }
    if (f->ot) *p++ = '/';
    switch (f->ot) {
    case O_I: p += sprintf(p, "%d", r->o.i); break;
    case O_D: p = fD(p, r->o.d); break;
    case O_F: p = fF(p, r->o.f); break;
    case O_L: p = fL(p, r->o.l); break;
    }
    *p = 0;
    fesetenv(&e);
    return buf;
}
static const char* flags(char* b, int m)
{
    char* p = b; *p++ = '['; 
    const char* n = "VZOUX"; int f[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT };
    for (int i = 0; i < 5; ++i) if (m & f[i]) { if (p > b + 1) *p++ = ','; p += sprintf(p, "\"%c\"", n[i]); }
    *p++ = ']'; *p = 0;
    return b;
}
static int rndi(void) { int r = fegetround(); return r == FE_TONEAREST ? 0 : r == FE_UPWARD ? 1 : r == FE_DOWNWARD ? 2 : 3; }
static const int RND[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static int outv(void) { int h = 0; for (unsigned i = 0; i < 10; ++i) h = (h * 31 + ((unsigned char*)&out)[i]) & 0xffffff; return h; }

static double gen(uint64_t* s, int easy)
{
    static const double sp[] = { 0.0, -0.0, 1, -1, 0.5, -0.5, 2, -2, 1.5, 2.5, 3, 10, -10, 100, 1e5, 0.1, 3.141592653589793, 1e-3, 0.999999, 1.0000001,
        INFINITY, -INFINITY, NAN, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 5e-324, 1e-310, FLT_MAX, FLT_MIN, 1e-40, 1e300, -1e300, 1e308, 88.8, 709.0, 710.0, -745.0, -750.0, 1024, -1075,
        1e18, 9.3e18, -9.3e18, 1e10, 170, 172, -3, -2.5, 4294967296.0, 11356, 11357, -11400, 1e-20 };
    fenv_t e; feholdexcept(&e);
    double x;
    int k = rg(s) % 8;
    if (easy) k = 5 + k % 3;
    if (k < 5) x = sp[rg(s) % (sizeof sp / sizeof *sp)];
    else if (k < 7) x = ((double)(rg(s) % 2000001) - 1000000) / 1000000.0 * (rg(s) & 1 ? 1 : 30);
    else if (easy) x = (double)(rg(s) % 100);
    else { uint64_t b = rg(s) ^ (rg(s) << 32); memcpy(&x, &b, 8); if (x != x) x = NAN; }
    fesetenv(&e);
    return x;
}
static void args(uint64_t* s, A* a)
{
    static const int is[] = { 0, 1, -1, 2, 5, 100, -100, 1000, -1000, 1100, -1100, 16400, -16600, 40000, -40000, INT_MAX, INT_MIN };
    static const char* ss[] = { "", "1", "0x7f", "abc" };
    int easy = rg(s) % 3 == 0;
    fenv_t e; feholdexcept(&e);
    for (int i = 0; i < 3; ++i) { a->d[i] = gen(s, easy); a->f[i] = (float)gen(s, easy); a->l[i] = gen(s, easy); }
    if (!easy && rg(s) % 4 == 0) a->l[0] = rg(s) & 1 ? LDBL_MAX : rg(s) & 1 ? LDBL_MIN / 4 : -LDBL_MAX;
    a->i = is[rg(s) % (easy ? 7 : 17)];
    a->n = rg(s) % 4 ? a->i : rg(s) & 1 ? LONG_MAX : LONG_MIN;
    for (int i = 0; i < 2; ++i) {
        __real__ a->cd[i] = gen(s, easy); __imag__ a->cd[i] = gen(s, easy);
        __real__ a->cf[i] = gen(s, easy); __imag__ a->cf[i] = gen(s, easy);
        __real__ a->cl[i] = gen(s, easy); __imag__ a->cl[i] = gen(s, easy);
    }
    a->s = ss[rg(s) % 4];
    fesetenv(&e);
}
static int rawflags(uint64_t* s) { static const int f[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT }; int m = 0; for (int i = 0; i < 5; ++i) if (rg(s) % 3 == 0) m |= f[i]; return m; }
static void sh_op(uint64_t* s, int i)
{
    char b1[64], b2[64], b3[200], b4[200];
    int k = rg(s) % 8;
    if (k == 0) {          /* another module changes the environment */
        picotm_libm_save_fenv();
        int m = rg(s) % 5;
        if (m == 4) fesetenv(FE_DFL_ENV); else fesetround(RND[m]);
        tr("{\"e\":\"env\",\"fl\":%s,\"rnd\":%d}", flags(b1, fetestexcept(FE_ALL_EXCEPT)), rndi());
    } else if (k == 1) {   /* another module changes status flags */
        picotm_libm_save_fexcept();
        int m = rawflags(s);
        if (rg(s) & 1) feraiseexcept(m); else feclearexcept(m);
        tr("{\"e\":\"flag\",\"fl\":%s}", flags(b1, fetestexcept(FE_ALL_EXCEPT)));
    } else {
        const Fn* f = fns + rg(s) % NF;
        A a; R p, t; memset(&p, 0, sizeof p); memset(&t, 0, sizeof t); memcpy(&p.o, &out, sizeof out);
        args(s, &a);
        int se = errno; fenv_t e; fegetenv(&e);
        feclearexcept(FE_ALL_EXCEPT); errno = 0;
        f->plain(&a, &p);
        int raised = fetestexcept(FE_ALL_EXCEPT), er = errno;
        fesetenv(&e); errno = se;
        tr("{\"e\":\"call\",\"f\":\"%s\",\"rep\":%d,\"r\":\"%s\",\"raised\":%s,\"errno\":%d,\"o\":%d,\"arg\":\"%a %a %a %d\"}", f->name, f->rep, show(b3, f, &p), flags(b1, raised), er,
            f->ot != 0, a.d[0], a.d[1], (double)a.f[0], a.i);
        fesetenv(&e);
        f->tx(&a, &t);
        int now = fetestexcept(FE_ALL_EXCEPT);
        tr("{\"e\":\"ret\",\"r\":\"%s\",\"fl\":%s,\"rnd\":%d,\"out\":%d}", show(b4, f, &t), flags(b2, now), rndi(), outv());
    }
}
static void sh_look(void) { char b[64]; tr("{\"e\":\"look\",\"fl\":%s,\"rnd\":%d,\"out\":%d}", flags(b, fetestexcept(FE_ALL_EXCEPT)), rndi(), outv()); }
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    char b[64];
    tr_open(argv[5]); crash_install();
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        int ntx = 1 + rg(&s) % 4;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), 6); sh.looks = 1;
            if (rg(&s) & 1 || !k) {
                fesetround(RND[rg(&s) % 3 ? 0 : rg(&s) % 4]);
                feclearexcept(FE_ALL_EXCEPT);
                if (rg(&s) & 1) feraiseexcept(rawflags(&s));
                memset(&out, 0, sizeof out); out.i = rg(&s) % 1000;
            }
            tr("{\"e\":\"set\",\"fl\":%s,\"rnd\":%d,\"out\":%d}", flags(b, fetestexcept(FE_ALL_EXCEPT)), rndi(), outv());
            sh_run();
            sh_look();
        }
    }
    tr_flush();
    return 0;
}
