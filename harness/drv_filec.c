// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* Regular files that are shared by concurrent transactions, under the controlled scheduler.
 * usage: drv_filec share SEED FIRST N OUT  (in a scratch directory) */
#include "common.h"
#include "vsched.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <ftw.h>

#define NF 2
static char root[64], fname[NF][80];
static int nthreads, ntx, unit, style;   /* style: 0: shared descriptors; 1: descriptors of transactions; 2: both */
static uint64_t runseed;
static int nraw, rawfd[8], rawo[8];         /* shared descriptors: number, open file description */
static int nofd, ofdf[8], ofdapp[8];        /* ... file, append mode */
static __thread struct { int fd; } own[16]; static __thread int nown;
static __thread int left[16], nleft;
enum { MAXUNIT = 4000, MAXU = 40 };
static __thread unsigned char buf[MAXU * MAXUNIT];

static void w_begin(void* d, struct picotm_error* e)
{ tr("{\"e\":\"begin\",\"t\":%d,\"irr\":%d,\"r\":%lu}", vs_self(), picotm_is_irrevocable(), picotm_number_of_restarts()); }
static void w_prep(void* d, int irr, struct picotm_error* e)
{ tr("{\"e\":\"prep\",\"t\":%d,\"irr\":%d}", vs_self(), !!irr); }
static void w_apply(void* d, struct picotm_error* e) { tr("{\"e\":\"apply\",\"t\":%d}", vs_self()); }
static void w_undo(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\",\"t\":%d}", vs_self()); }
static void w_finish(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\",\"t\":%d}", vs_self()); }
static const struct picotm_module_ops w_ops = { w_begin, w_prep, w_apply, w_undo, NULL, NULL, w_finish, NULL };


static long units(long n) { return n >= 0 && n % unit == 0 ? n / unit : 1000000 + n; }
static int unify(const unsigned char* b) { for (int i = 1; i < unit; ++i) if (b[i] != b[0]) return 999; return b[0]; }
static void jbuf(char* o, const unsigned char* b, long n)
{
    o += sprintf(o, "[");
    for (int k = 0; k < n / unit; ++k) o += sprintf(o, k ? ",%d" : "%d", unify(b + k * unit));
    if (n % unit) o += sprintf(o, n > unit ? ",%ld" : "%ld", 1000 + n % unit);
    sprintf(o, "]");
}
static void call(const char* n, int fd, const char* fmt, ...)
{
    char x[800] = ""; va_list a; va_start(a, fmt); vsnprintf(x, sizeof x, fmt, a); va_end(a);
    tr("{\"e\":\"call\",\"t\":%d,\"n\":\"%s\",\"fd\":%d%s}", vs_self(), n, fd, x);
}
static void ret(long r) { tr("{\"e\":\"ret\",\"t\":%d,\"r\":%ld}", vs_self(), r); }
static void op_close(int fd) { call("close", fd, ""); close_tx(fd); ret(0); }
static void op(uint64_t* s, int i)
{
    static const int kinds[] = { 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7 };
    int k = kinds[rg(s) % 16], t = vs_self();
    if (style == 0 && k == 0) k = 2;
    if (style == 1) k = nown ? k : 0;
    int fd = nown && (style == 1 || (rg(s) & 1)) ? own[rg(s) % nown].fd : rawfd[rg(s) % nraw];
    int n = rg(s) % 4 ? 1 + rg(s) % 3 : rg(s) % 8, off = rg(s) % 8;
    char js[400];
    switch (k) {
    case 0: {
        if (nown > 1) return;
        int f = rg(s) % NF, app = rg(s) % 4 == 0;
        call("open", -1, ",\"f\":%d,\"app\":%d", f, app);
        int r = open_tx(fname[f], O_RDWR | (app ? O_APPEND : 0));
        own[nown++].fd = r;
        tr("{\"e\":\"ret\",\"t\":%d,\"r\":0,\"fd\":%d}", t, r);
        break; }
    case 1: case 3: {
        if (k == 1) call("read", fd, ",\"len\":%d", n); else call("pread", fd, ",\"len\":%d,\"off\":%d", n, off);
        memset(buf, 0xee, n * unit);
        ssize_t r = k == 1 ? read_tm(fd, buf, n * unit) : pread_tm(fd, buf, n * unit, (long)off * unit);
        jbuf(js, buf, r < 0 || r > n * unit ? 1 : r);
        tr("{\"e\":\"ret\",\"t\":%d,\"r\":%s}", t, js);
        break; }
    case 2: case 4: {
        int v = 1 + rg(s) % 200;
        for (int j = 0; j < n; ++j) memset(buf + j * unit, v + j, unit);
        jbuf(js, buf, n * unit);
        if (k == 2) call("write", fd, ",\"b\":%s", js); else call("pwrite", fd, ",\"b\":%s,\"off\":%d", js, off);
        ret(units(k == 2 ? write_tm(fd, buf, n * unit) : pwrite_tm(fd, buf, n * unit, (long)off * unit)));
        break; }
    case 5: {
        int w = rg(s) % 3, o = w == 1 ? (int)(rg(s) % 2) : (int)(rg(s) % 8);
        if (w == 2) o = rg(s) % 2;
        call("seek", fd, ",\"off\":%d,\"wh\":\"%s\"", o, w == 0 ? "set" : w == 1 ? "cur" : "end");
        ret(units(lseek_tx(fd, (long)o * unit, w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END)));
        break; }
    case 6: {
        struct stat st;
        call("fstat", fd, "");
        fstat_tm(fd, &st);
        tr("{\"e\":\"ret\",\"t\":%d,\"r\":[%d,%ld]}", t, st.st_mode & 07777, units(st.st_size));
        break; }
    case 7: {
        int m = 0600 | (rg(s) & 077);
        call("fchmod", fd, ",\"m\":%d", m);
        fchmod_tx(fd, m); ret(0);
        break; }
    }
}
static void one_tx(int t, int k)
{
    const uint64_t seed = mix(mix(runseed, t), k);
    volatile int rec = 0, forced = 0;
    uint64_t k0 = seed;
    const int nops = 1 + rg(&k0) % 6;
    const int want_irr = !(rg(&k0) % 12);
    const int want_err = !(rg(&k0) % 6);
    const int want_conf = rg(&k0) % 5 ? 0 : 1 + rg(&k0) % 3;
    vs_yield();
    picotm_begin
        uint64_t s = mix(seed, 7); nown = nleft = 0;
        int at = rg(&s) % nops;
        for (int i = 0; i < nops; ++i) {
            op(&s, i);
            vs_yield();
            if (i == at) {
                if (want_irr && !picotm_is_irrevocable()) {
                    /* the files of an attempt that restarts are not needed any more */
                    tr("{\"e\":\"reqirr\",\"t\":%d}", t);
                    picotm_irrevocable();
                }
                if (want_conf > forced && !picotm_is_irrevocable()) {
                    forced = forced + 1;
                    tr("{\"e\":\"reqconf\",\"t\":%d}", t);
                    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                    picotm_error_set_conflicting(&e, NULL);
                    picotm_recover_from_error(&e);
                }
                if (want_err && !rec) {
                    tr("{\"e\":\"reqerr\",\"t\":%d,\"v\":%d}", t, 200 + k);
                    picotm_recover_from_errno(200 + k);
                }
            }
        }
        for (int i = 0; i < nown; ++i) if (rg(&s) & 7) op_close(own[i].fd); else left[nleft++] = own[i].fd;
    picotm_commit
        rec = rec + 1; nleft = 0;
        tr("{\"e\":\"rec\",\"t\":%d,\"st\":%d,\"v\":%d,\"nr\":%d}", t, (int)picotm_error_status(), picotm_error_as_errno(), picotm_error_is_non_recoverable());
        vs_yield();
        if ((seed & 3) && rec < 3) { tr("{\"e\":\"again\",\"t\":%d}", t); picotm_restart(); }
    picotm_end
    tr("{\"e\":\"end\",\"t\":%d}", t);
    while (nleft) close(left[--nleft]);
}
static void thread_main(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&w_ops, NULL, &e);
    for (int k = 0; k < ntx; ++k) one_tx(t, k);
    picotm_release();
}
static int rmf(const char* p, const struct stat* s, int f, struct FTW* w) { return remove(p); }
static void cleanup(void) { nftw(root, rmf, 16, FTW_DEPTH | FTW_PHYS); }
static void on_hang(void)
{
    tr("{\"e\":\"hang\",\"t\":%d}", vs_self());
    tr_flush(); cleanup();
    _exit(98);
}
static void state(const char* e, int run)
{
    static char out[16000]; char* o = out; static unsigned char b[MAXU * 8 * MAXUNIT]; char js[4000];
    o += sprintf(o, "{\"e\":\"%s\",\"t\":0,\"run\":%d,\"n\":%d,\"files\":[", e, run, nthreads);
    for (int f = 0; f < NF; ++f) {
        struct stat st; int fd = open(fname[f], O_RDONLY); fstat(fd, &st);
        jbuf(js, b, pread(fd, b, sizeof b, 0)); close(fd);
        o += sprintf(o, "%s{\"f\":%d,\"m\":%d,\"d\":%s}", f ? "," : "", f, st.st_mode & 07777, js);
    }
    o += sprintf(o, "],\"ofds\":[");
    for (int k = 0; k < nofd; ++k) {
        int fd = -1; for (int i = 0; i < nraw; ++i) if (rawo[i] == k) fd = rawfd[i];
        o += sprintf(o, "%s{\"o\":%d,\"f\":%d,\"off\":%ld,\"app\":%d}", k ? "," : "", k, ofdf[k], units(lseek(fd, 0, SEEK_CUR)), ofdapp[k]);
    }
    o += sprintf(o, "],\"fds\":[");
    for (int i = 0; i < nraw; ++i) o += sprintf(o, "%s{\"fd\":%d,\"o\":%d}", i ? "," : "", rawfd[i], rawo[i]);
    sprintf(o, "]}");
    tr("%s", out);
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    strcpy(root, "/tmp/verif-filec-XXXXXX"); if (!mkdtemp(root)) return 2;
    for (int f = 0; f < NF; ++f) sprintf(fname[f], "%s/f%d", root, f);
    atexit(cleanup);
    umask(0);
    vs_on_hang = on_hang;
    static const unsigned ps[] = { 2, 4, 8, 16 }, pm[] = { 0, 6, 24, 96 };
    static const int us[] = { 1, 10, 10, 16, 20, 32, 40, MAXUNIT };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 600000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 300 + rg(&s) % 3000;
        c.tick_ns = (rg(&s) & 3) ? (rg(&s) & 1 ? 1000 : 0) : 700000000l;
        nthreads = 2 + rg(&s) % 3; ntx = 1 + rg(&s) % 4; unit = us[rg(&s) % 8];
        static unsigned char b[MAXU * MAXUNIT];
        for (int f = 0; f < NF; ++f) {
            int z = rg(&s) % 9; unlink(fname[f]);
            for (int k = 0; k < z; ++k) memset(b + k * unit, 201 + k, unit);
            int fd = open(fname[f], O_CREAT | O_EXCL | O_WRONLY, 0644);
            if (fd < 0 || write(fd, b, z * unit) != z * unit) return 2;
            close(fd);
        }
        nofd = nraw = 0; style = rg(&s) % 8; style = style < 4 ? 0 : style < 6 ? 1 : 2;
        int w = rg(&s) % 4;
        for (int k = 0; k < 1 + (w > 0) + (w > 2); ++k) {
            ofdf[nofd] = k % NF; ofdapp[nofd] = rg(&s) % 4 == 0;
            rawfd[nraw] = open(fname[k % NF], O_RDWR | (ofdapp[nofd] ? O_APPEND : 0)); rawo[nraw++] = nofd;
            lseek(rawfd[nraw - 1], (rg(&s) % 6) * unit, SEEK_SET);
            if (style == 2 && rg(&s) % 4 == 0) { rawfd[nraw] = dup(rawfd[nraw - 1]); rawo[nraw++] = nofd; }
            ++nofd;
        }
        state("reset", i);
        vs_run(&c, nthreads, thread_main);
        state("final", i);
        for (int k = 0; k < nraw; ++k) close(rawfd[k]);
    }
    tr_flush();
    return 0;
}
