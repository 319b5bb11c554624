// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* The process-wide state of the C library, i.e., the current working directory and the locale,
 * as shared memory: each category of the locale is a cell (0..5), the working directory another (6).
 * Concurrent transactions under the controlled scheduler. usage: drv_env locale|cwd SEED FIRST N OUT */
#include "common.h"
#include "vsched.h"
#include "picotm/locale.h"
#include "picotm/unistd.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/fcntl.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <ftw.h>
#include <locale.h>
#include <langinfo.h>

static const int cat[6] = { LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC, LC_TIME };
static const char* const cname[6] = { "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME" };
static const char* const lname[4] = { "", "C", "C.utf8", "en_US.utf8" };
#define NDIR 4
static char root[64], dir[NDIR][80]; static ino_t ino[NDIR], dino[NDIR];
static int nthreads, ntx, do_cwd;
static uint64_t runseed;

static void w_begin(void* d, struct picotm_error* e)
{ tr("{\"e\":\"begin\",\"t\":%d,\"irr\":%d,\"r\":%lu}", vs_self(), picotm_is_irrevocable(), picotm_number_of_restarts()); }
static void w_prep(void* d, int irr, struct picotm_error* e)
{ tr("{\"e\":\"prep\",\"t\":%d,\"irr\":%d}", vs_self(), !!irr); }
static void w_apply(void* d, struct picotm_error* e) { tr("{\"e\":\"apply\",\"t\":%d}", vs_self()); }
static void w_undo(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\",\"t\":%d}", vs_self()); }
static void w_finish(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\",\"t\":%d}", vs_self()); }
static const struct picotm_module_ops w_ops = { w_begin, w_prep, w_apply, w_undo, NULL, NULL, w_finish, NULL };

static uint8_t lcode(const char* s, size_t n)
{
    for (int i = 1; i < 4; ++i) if (strlen(lname[i]) == n && !memcmp(lname[i], s, n)) return i;
    return 99;
}
static void codes_of(const char* s, uint8_t* v)
{
    for (int c = 0; c < 6; ++c) {
        char key[32]; sprintf(key, "%s=", cname[c]);
        const char* k = s ? strstr(s, key) : NULL;
        if (!s) v[c] = 98;
        else if (k) { k += strlen(key); v[c] = lcode(k, strcspn(k, ";")); }
        else v[c] = lcode(s, strlen(s));
    }
}
static uint8_t dcode(const char* p)
{
    for (int i = 0; i < NDIR; ++i) if (p && !strcmp(p, dir[i])) return 10 + i;
    return 99;
}
static void ld(int o, int n, const uint8_t* v) { tr("{\"e\":\"ld\",\"t\":%d,\"o\":%d,\"b\":%s}", vs_self(), o, tr_bytes(v, n)); }
static void st(int o, int n, const uint8_t* v) { tr("{\"e\":\"st\",\"t\":%d,\"o\":%d,\"b\":%s}", vs_self(), o, tr_bytes(v, n)); }

static void op_locale(uint64_t* s)
{
    uint8_t v[6], w[6]; int c = rg(s) % 8, x = 1 + rg(s) % 3;
    switch (rg(s) % 7) {
    case 0: case 1: /* set one or all */
        codes_of(setlocale_tx(c < 6 ? cat[c] : LC_ALL, lname[x]), v);
        for (int i = 0; i < 6; ++i) w[i] = x;
        if (c < 6) st(c, 1, v + c); else st(0, 6, v);
        /* the returned string names the locale that has been set */
        if (c < 6) ld(c, 1, w); else ld(0, 6, w);
        break;
    case 2: case 3:
        codes_of(setlocale_tx(c < 6 ? cat[c] : LC_ALL, NULL), v);
        if (c < 6) ld(c, 1, v + c); else ld(0, 6, v);
        break;
    case 4: { /* monetary and numeric */
        struct lconv* l = localeconv_tx();
        int en = !strcmp(l->int_curr_symbol, "USD ");
        codes_of(setlocale_tx(LC_MONETARY, NULL), v);
        if (en != (v[3] == 3)) v[3] = 97;
        ld(3, 1, v + 3);
        break; }
    case 5: {
        locale_t l = duplocale_tx(LC_GLOBAL_LOCALE);
        for (int i = 0; i < 6; ++i) { const char* n = nl_langinfo_l(NL_LOCALE_NAME(cat[i]), l); v[i] = lcode(n, strlen(n)); }
        freelocale_tx(l);
        ld(0, 6, v);
        break; }
    case 6: { /* exchange two categories */
        int a = rg(s) % 6, b = rg(s) % 6;
        codes_of(setlocale_tx(cat[a], NULL), v); ld(a, 1, v + a);
        uint8_t va = v[a];
        codes_of(setlocale_tx(cat[b], NULL), v); ld(b, 1, v + b);
        uint8_t vb = v[b];
        if (va > 3 || vb > 3) break;
        setlocale_tx(cat[a], lname[vb]); st(a, 1, &vb);
        setlocale_tx(cat[b], lname[va]); st(b, 1, &va);
        break; }
    }
}
static void op_cwd(uint64_t* s)
{
    uint8_t v; int x = rg(s) % NDIR; char b[128];
    switch (rg(s) % 7) {
    case 0: case 1:
        chdir_tx(dir[x]); v = 10 + x; st(6, 1, &v);
        break;
    case 2:
        sprintf(b, "../d%d", x);
        chdir_tx(b); v = 10 + x; st(6, 1, &v);
        break;
    case 3: v = dcode(getcwd_tx(b, sizeof(b))); ld(6, 1, &v); break;
    case 4: { char* p = getcwd_tx(NULL, 0); v = dcode(p); free_tx(p); ld(6, 1, &v); break; }
    case 5: { /* a relative path */
        struct stat sb; v = 99;
        if (rg(s) & 1) { stat_tx("me", &sb); for (int i = 0; i < NDIR; ++i) if (sb.st_ino == ino[i]) v = 10 + i; }
        else { lstat_tx("me", &sb); for (int i = 0; i < NDIR; ++i) if (sb.st_ino == ino[i]) v = 10 + i; }
        ld(6, 1, &v);
        break; }
    case 6: { struct stat sb; v = 99;
        stat_tx(".", &sb); for (int i = 0; i < NDIR; ++i) if (sb.st_ino == dino[i]) v = 10 + i;
        ld(6, 1, &v);
        break; }
    }
}

static void one_tx(int t, int k)
{
    const uint64_t seed = mix(mix(runseed, t), k);
    volatile int rec = 0, forced = 0;
    uint64_t k0 = seed;
    const int nops = 1 + rg(&k0) % 5;
    const int want_irr = !(rg(&k0) % 12);
    const int want_err = !(rg(&k0) % 6);
    const int want_conf = rg(&k0) % 5 ? 0 : 1 + rg(&k0) % 3;
    vs_yield();
    picotm_begin
        uint64_t s = mix(seed, 7);
        int at = rg(&s) % nops;
        for (int i = 0; i < nops; ++i) {
            if (do_cwd) op_cwd(&s); else op_locale(&s);
            vs_yield();
            if (i == at) {
                if (want_irr && !picotm_is_irrevocable()) {
                    tr("{\"e\":\"reqirr\",\"t\":%d}", t);
                    picotm_irrevocable();
                }
                if (want_conf > forced && !picotm_is_irrevocable()) {
                    forced = forced + 1;
                    tr("{\"e\":\"reqconf\",\"t\":%d}", t);
                    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                    picotm_error_set_conflicting(&e, NULL);
                    picotm_recover_from_error(&e);
                }
                if (want_err && !rec) {
                    tr("{\"e\":\"reqerr\",\"t\":%d,\"v\":%d}", t, 1 + k);
                    picotm_recover_from_errno(1 + k);
                }
            }
        }
    picotm_commit
        rec = rec + 1;
        tr("{\"e\":\"rec\",\"t\":%d,\"st\":%d,\"v\":%d,\"nr\":%d}", t, (int)picotm_error_status(), picotm_error_as_errno(), picotm_error_is_non_recoverable());
        vs_yield();
        if ((seed & 3) && rec < 3) { tr("{\"e\":\"again\",\"t\":%d}", t); picotm_restart(); }
    picotm_end
    tr("{\"e\":\"end\",\"t\":%d}", t);
}
static void thread_main(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&w_ops, NULL, &e);
    for (int k = 0; k < ntx; ++k) one_tx(t, k);
    picotm_release();
}
static int rmf(const char* p, const struct stat* s, int f, struct FTW* w) { return remove(p); }
static void cleanup(void) { if (chdir("/")) {} nftw(root, rmf, 16, FTW_DEPTH | FTW_PHYS); }
static void on_hang(void)
{
    tr("{\"e\":\"hang\",\"t\":%d}", vs_self());
    tr_flush(); cleanup();
    _exit(98);
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    do_cwd = !strcmp(argv[1], "cwd");
    tr_open(argv[5]); crash_install();
    strcpy(root, "/tmp/envXXXXXX"); if (!mkdtemp(root)) return 2;
    for (int i = 0; i < NDIR; ++i) {
        struct stat sb; char b[128];
        sprintf(dir[i], "%s/d%d", root, i); mkdir(dir[i], 0700); stat(dir[i], &sb); dino[i] = sb.st_ino;
        sprintf(b, "%s/me", dir[i]); int fd = open(b, O_CREAT | O_WRONLY, 0600); fstat(fd, &sb); ino[i] = sb.st_ino; close(fd);
    }
    atexit(cleanup);
    vs_on_hang = on_hang;
    static const unsigned ps[] = { 2, 4, 8, 16 }, pm[] = { 0, 6, 24, 96 };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 400000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 300 + rg(&s) % 3000;
        c.tick_ns = (rg(&s) & 3) ? (rg(&s) & 1 ? 1000 : 0) : 700000000l;
        nthreads = 2 + rg(&s) % 3; ntx = 1 + rg(&s) % 4;
        uint8_t m[7]; char b[128];
        for (int k = 0; k < 6; ++k) setlocale(cat[k], lname[1 + rg(&s) % 3]);
        if (chdir(dir[rg(&s) % NDIR])) return 2;
        codes_of(setlocale(LC_ALL, NULL), m); m[6] = dcode(getcwd(b, sizeof(b)));
        tr("{\"e\":\"reset\",\"t\":0,\"run\":%d,\"n\":%d,\"mem\":%s}", i, nthreads, tr_bytes(m, 7));
        vs_run(&c, nthreads, thread_main);
        codes_of(setlocale(LC_ALL, NULL), m); m[6] = dcode(getcwd(b, sizeof(b)));
        tr("{\"e\":\"final\",\"t\":0,\"mem\":%s}", tr_bytes(m, 7));
    }
    tr_flush();
    return 0;
}
