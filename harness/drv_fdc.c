// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* Descriptors that concurrent transactions open, duplicate, close and use, under the controlled scheduler.
 * usage: drv_fdc fd SEED FIRST N OUT  (in a scratch directory) */
#include "common.h"
#include "vsched.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <ftw.h>

#define NF 12
enum { MAXP = 512 };
static char root[64], fname[NF][80];
static ino_t ino[NF];
static int nthreads, ntx;
static uint64_t runseed;
static int pool[MAXP], npool;       /* descriptors that committed transactions have left open */
static __thread int own[8], nown, gone[8], ngone;

static void w_begin(void* d, struct picotm_error* e)
{ tr("{\"e\":\"begin\",\"t\":%d,\"irr\":%d,\"r\":%lu}", vs_self(), picotm_is_irrevocable(), picotm_number_of_restarts()); }
static void w_prep(void* d, int irr, struct picotm_error* e)
{ tr("{\"e\":\"prep\",\"t\":%d,\"irr\":%d}", vs_self(), !!irr); }
static void w_apply(void* d, struct picotm_error* e) { tr("{\"e\":\"apply\",\"t\":%d}", vs_self()); }
static void w_undo(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\",\"t\":%d}", vs_self()); }
static void w_finish(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\",\"t\":%d}", vs_self()); }
static const struct picotm_module_ops w_ops = { w_begin, w_prep, w_apply, w_undo, NULL, NULL, w_finish, NULL };



static int which(int fd) { struct stat st; if (fstat(fd, &st)) return -1; for (int f = 0; f < NF; ++f) if (ino[f] == st.st_ino) return f; return -2; }
static int pick(uint64_t* s)
{
    for (int i = 0; i < 4; ++i) {
        int fd = nown && rg(s) % 3 == 0 ? own[rg(s) % nown] : npool ? pool[rg(s) % npool] : -1, ok = fd >= 0;
        for (int j = 0; j < ngone; ++j) if (gone[j] == fd) ok = 0;
        if (ok) return fd;
    }
    return -1;
}
static void op(uint64_t* s)
{
    static const int kinds[] = { 0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 4 };
    int k = kinds[rg(s) % 11], t = vs_self(), fd = pick(s), r;
    if (fd < 0) k = 0;
    switch (k) {
    case 0: {
        if (nown > 3) return;
        int f = rg(s) % NF;
        tr("{\"e\":\"call\",\"t\":%d,\"n\":\"open\",\"fd\":-1,\"f\":%d}", t, f);
        r = open_tx(fname[f], O_RDWR); own[nown++] = r;
        tr("{\"e\":\"ret\",\"t\":%d,\"fd\":%d,\"f\":%d}", t, r, which(r));
        break; }
    case 1:
        if (nown > 3) return;
        tr("{\"e\":\"call\",\"t\":%d,\"n\":\"dup\",\"fd\":%d,\"f\":-1}", t, fd);
        r = dup_tx(fd); own[nown++] = r;
        tr("{\"e\":\"ret\",\"t\":%d,\"fd\":%d,\"f\":%d}", t, r, which(r));
        break;
    case 2:
        if (ngone > 6) return;
        tr("{\"e\":\"call\",\"t\":%d,\"n\":\"close\",\"fd\":%d,\"f\":-1}", t, fd);
        close_tx(fd); gone[ngone++] = fd;
        tr("{\"e\":\"ret\",\"t\":%d,\"fd\":%d,\"f\":%d}", t, fd, which(fd));
        break;
    case 3: {
        struct stat st; int f = -2;
        tr("{\"e\":\"call\",\"t\":%d,\"n\":\"stat\",\"fd\":%d,\"f\":-1}", t, fd);
        fstat_tm(fd, &st);
        for (int i = 0; i < NF; ++i) if (ino[i] == st.st_ino) f = i;
        tr("{\"e\":\"ret\",\"t\":%d,\"fd\":%d,\"f\":%d}", t, fd, f);
        break; }
    case 4: {
        char c = 0;
        tr("{\"e\":\"call\",\"t\":%d,\"n\":\"read\",\"fd\":%d,\"f\":-1}", t, fd);
        pread_tm(fd, &c, 1, 0);
        tr("{\"e\":\"ret\",\"t\":%d,\"fd\":%d,\"f\":%d}", t, fd, c - 'a');
        break; }
    }
}
static void one_tx(int t, int k)
{
    const uint64_t seed = mix(mix(runseed, t), k);
    volatile int rec = 0, forced = 0;
    uint64_t k0 = seed;
    const int nops = 1 + rg(&k0) % 6;
    const int want_irr = !(rg(&k0) % 12);
    const int want_err = !(rg(&k0) % 6);
    const int want_conf = rg(&k0) % 4 ? 0 : 1 + rg(&k0) % 3;
    vs_yield();
    picotm_begin
        uint64_t s = mix(seed, 7); nown = ngone = 0;
        int at = rg(&s) % nops;
        for (int i = 0; i < nops; ++i) {
            op(&s);
            vs_yield();
            if (i == at) {
                if (want_irr && !picotm_is_irrevocable()) { tr("{\"e\":\"req\",\"t\":%d,\"err\":0}", t); picotm_irrevocable(); }
                if (want_conf > forced && !picotm_is_irrevocable()) {
                    forced = forced + 1;
                    tr("{\"e\":\"req\",\"t\":%d,\"err\":0}", t);
                    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                    picotm_error_set_conflicting(&e, NULL);
                    picotm_recover_from_error(&e);
                }
                if (want_err && !rec) { tr("{\"e\":\"req\",\"t\":%d,\"err\":1}", t); picotm_recover_from_errno(200); }
            }
        }
    picotm_commit
        rec = rec + 1; nown = ngone = 0;
        tr("{\"e\":\"rec\",\"t\":%d,\"st\":%d,\"v\":%d,\"nr\":%d}", t, (int)picotm_error_status(), picotm_error_as_errno(), picotm_error_is_non_recoverable());
        vs_yield();
        if ((seed & 3) && rec < 3) { tr("{\"e\":\"again\",\"t\":%d}", t); picotm_restart(); }
    picotm_end
    /* no other thread runs meanwhile */
    for (int i = 0; i < nown; ++i) { int x = 0; for (int j = 0; j < ngone; ++j) x |= gone[j] == own[i]; if (!x) pool[npool++] = own[i]; }
    for (int i = 0; i < ngone; ++i) for (int j = 0; j < npool; ++j) if (pool[j] == gone[i]) pool[j--] = pool[--npool];
    tr("{\"e\":\"end\",\"t\":%d}", t);
    nown = ngone = 0;
}
static void thread_main(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&w_ops, NULL, &e);
    for (int k = 0; k < ntx; ++k) one_tx(t, k);
    picotm_release();
}
static int rmf(const char* p, const struct stat* s, int f, struct FTW* w) { return remove(p); }
static void cleanup(void) { nftw(root, rmf, 16, FTW_DEPTH | FTW_PHYS); }
static void on_hang(void)
{
    tr("{\"e\":\"hang\",\"t\":%d}", vs_self());
    tr_flush(); cleanup();
    _exit(98);
}

static void state(const char* e, int run)
{
    static char out[4000]; char* o = out; int k = 0;
    o += sprintf(o, "{\"e\":\"%s\",\"t\":0,\"run\":%d,\"fds\":[", e, run);
    for (int fd = 3; fd < 200; ++fd) { int f = which(fd); if (f >= 0) o += sprintf(o, "%s{\"fd\":%d,\"f\":%d}", k++ ? "," : "", fd, f); }
    sprintf(o, "]}");
    tr("%s", out);
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    strcpy(root, "/tmp/verif-fdc-XXXXXX"); if (!mkdtemp(root)) return 2;
    atexit(cleanup);
    for (int f = 0; f < NF; ++f) {
        sprintf(fname[f], "%s/f%d", root, f);
        int fd = open(fname[f], O_CREAT | O_EXCL | O_WRONLY, 0644); char c = 'a' + f; struct stat st;
        if (fd < 0 || write(fd, &c, 1) != 1 || fstat(fd, &st)) return 2;
        ino[f] = st.st_ino; close(fd);
    }
    vs_on_hang = on_hang;
    static const unsigned ps[] = { 2, 4, 8, 16 }, pm[] = { 0, 6, 24, 96 };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 600000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 300 + rg(&s) % 3000;
        c.tick_ns = (rg(&s) & 3) ? (rg(&s) & 1 ? 1000 : 0) : 700000000l;
        nthreads = 2 + rg(&s) % 3; ntx = 1 + rg(&s) % 4;
        npool = 0;
        int z = 1 + rg(&s) % 4;
        for (int k = 0; k < z; ++k) pool[npool++] = open(fname[rg(&s) % NF], O_RDWR);
        state("reset", i);
        vs_run(&c, nthreads, thread_main);
        state("final", i);
        for (int fd = 3; fd < 200; ++fd) if (which(fd) >= 0) close(fd);
    }
    tr_flush();
    return 0;
}
