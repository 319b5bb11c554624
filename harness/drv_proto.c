// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* Transactions over modules that are registered by the driver, log events and inject faults.
 * usage: drv_proto WORKLOAD SEED FIRST N OUT
 *   enum   one thread; run i of N enumerates (program, faulty callback, kind)
 *   rand   1-3 threads, random programs with random faults
 *   fatal  like enum with faults after the point of no return (one run per process) */
#include "common.h"
#include "vsched.h"
#include <signal.h>
#include <sys/wait.h>

#define MAXM 300
struct mod { int t, id; unsigned cbs; unsigned long num; };
static struct mod mods[4][MAXM];
static int nmods[4];
static __thread unsigned long cbcount;
static __thread uint64_t* cur_rng;
static __thread long fault_at[2]; static __thread int fault_kind[2];
static __thread int fault_p; static __thread int no_begin_fault;
static __thread int fatal_done, committing;
static int fatal_mode;

enum { CB_BEGIN, CB_PREP, CB_APPLY, CB_UNDO, CB_AEV, CB_UEV, CB_FIN };
static const char* cbn[] = { "begin", "prep", "apply", "undo", "aev", "uev", "fin" };
static const char* kinds[] = { "no", "conf", "irr", "err" };

static const siginfo_t* mksig(int v) { static __thread siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = v; si.si_code = v + 3; return &si; }
/* error v: which kind and value it has */
static int est(int v) { return v % 3 == 0 ? PICOTM_ERRNO : v % 3 == 1 ? PICOTM_ERROR_CODE : PICOTM_SIGINFO_T; }
static void set_err(struct picotm_error* e, int v)
{
    switch (est(v)) {
    case PICOTM_ERRNO: picotm_error_set_errno(e, v); break;
    case PICOTM_ERROR_CODE: picotm_error_set_error_code(e, (enum picotm_error_code)v); break;
    default: picotm_error_set_siginfo_t(e, mksig(v)); break;
    }
}
/* decides whether this callback fails; 0 no, 1 conflict, 2 irrevocable, 3 error */
static int fault(int cb)
{
    ++cbcount;
    int k = 0;
    for (int i = 0; i < 2; ++i) if (fault_at[i] == (long)cbcount) k = fault_kind[i];
    if (!k && fault_p && cur_rng && !(rg(cur_rng) % fault_p)) k = 1 + rg(cur_rng) % 3;
    if (cb == CB_BEGIN) { if (no_begin_fault) return 0; return k ? 3 : 0; }
    if (cb == CB_PREP) { if (k != 3 && picotm_is_irrevocable()) k = 0; if (k) committing = 0; return k; }
    if (fatal_mode && committing && (cb == CB_APPLY || cb == CB_AEV || cb == CB_FIN) && k && !fatal_done) { fatal_done = 1; return 3; }
    return 0;
}
static void cbk(struct mod* m, int cb, struct picotm_error* e)
{
    int f = fault(cb);
    int v = 5 + (m->id * 7 + cb) % 40;
    tr("{\"e\":\"cb\",\"t\":%d,\"c\":\"%s\",\"m\":%d,\"f\":\"%s\",\"st\":%d,\"v\":%d}", m->t, cbn[cb], m->id, kinds[f], f == 3 ? est(v) : 0, f == 3 ? v : 0);
    if (f == 1) picotm_error_set_conflicting(e, NULL);
    if (f == 2) picotm_error_set_revocable(e);
    if (f == 3) set_err(e, v);
    vs_yield();
}
static void m_begin(void* d, struct picotm_error* e) { cbk(d, CB_BEGIN, e); }
static void m_prep(void* d, int irr, struct picotm_error* e) { cbk(d, CB_PREP, e); }
static void m_apply(void* d, struct picotm_error* e) { cbk(d, CB_APPLY, e); }
static void m_undo(void* d, struct picotm_error* e) { cbk(d, CB_UNDO, e); }
static void m_fin(void* d, struct picotm_error* e) { cbk(d, CB_FIN, e); }
static void evcb(struct mod* m, int cb, uint16_t h, uintptr_t x, struct picotm_error* e)
{
    int f = fault(cb); int v = 5 + (m->id * 7 + cb) % 40;
    tr("{\"e\":\"%s\",\"t\":%d,\"m\":%d,\"x\":\"%x-%lx\",\"f\":\"%s\",\"st\":%d,\"v\":%d}", cbn[cb], m->t, m->id, h, (unsigned long)x, kinds[f], f == 3 ? est(v) : 0, f == 3 ? v : 0);
    if (f == 3) set_err(e, v);
    vs_yield();
}
static void m_aev(uint16_t h, uintptr_t x, void* d, struct picotm_error* e) { evcb(d, CB_AEV, h, x, e); }
static void m_uev(uint16_t h, uintptr_t x, void* d, struct picotm_error* e) { evcb(d, CB_UEV, h, x, e); }
static void m_release(void* d) { struct mod* m = d; tr("{\"e\":\"release\",\"t\":%d,\"m\":%d}", m->t, m->id); }

static struct picotm_module_ops opstab[128];
static void mkops(void)
{
    for (int i = 0; i < 128; ++i) {
        opstab[i].begin = i & 1 ? m_begin : NULL;
        opstab[i].prepare_commit = i & 2 ? m_prep : NULL;
        opstab[i].apply = i & 4 ? m_apply : NULL;
        opstab[i].undo = i & 8 ? m_undo : NULL;
        opstab[i].apply_event = i & 16 ? m_aev : NULL;
        opstab[i].undo_event = i & 32 ? m_uev : NULL;
        opstab[i].finish = i & 64 ? m_fin : NULL;
        opstab[i].release = m_release;
    }
}
static void reg(int t, unsigned cbs)
{
    struct mod* m = &mods[t][nmods[t]];
    m->t = t; m->id = nmods[t]; m->cbs = cbs;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    m->num = picotm_register_module(&opstab[cbs], m, &e);
    int ok = !picotm_error_is_set(&e);
    tr("{\"e\":\"reg\",\"t\":%d,\"m\":%d,\"ok\":%d,\"cbs\":[%d,%d,%d,%d,%d,%d,%d]}", t, m->id, ok, !!(cbs & 1), !!(cbs & 2), !!(cbs & 4), !!(cbs & 8), !!(cbs & 16), !!(cbs & 32), !!(cbs & 64));
    if (ok) nmods[t]++;
}

static int nthreads, wl;
static uint64_t runseed;
struct prog { int nm, ntx, nev; int reqs; unsigned cbs_seed; };

static void one_tx(int t, int k, uint64_t seed, int nev, int reqkind, int midreg)
{
    volatile int rec = 0, forced = 0, mid = 0;
    uint64_t rs = mix(seed, 99);
    cur_rng = &rs; committing = 0;
    tr("{\"e\":\"start\",\"t\":%d}", t);
    picotm_begin
        uint64_t s = mix(seed, 7);
        committing = 0;
        tr("{\"e\":\"body\",\"t\":%d,\"r\":%lu,\"irr\":%d,\"st\":%d}", t, picotm_number_of_restarts(), picotm_is_irrevocable(), (int)picotm_error_status());
        int at = nev ? rg(&s) % (nev + 1) : 0;
        for (int i = 0; i <= nev; ++i) {
            if (i == at && midreg && !mid) { mid = 1; reg(t, 127 & ~(unsigned)(rg(&s) % 4 ? 0 : 2)); }
            if (i == at && reqkind && forced < 1 + (int)(seed & 1)) {
                forced = forced + 1;
                int v = 2 + rg(&s) % 30;
                int nr = 0;
                switch (reqkind) {
                case 1: if (picotm_is_irrevocable()) break;
                    tr("{\"e\":\"req\",\"t\":%d,\"k\":\"conf\",\"st\":0,\"v\":0,\"nr\":0}", t);
                    picotm_resolve_conflict(NULL); break;
                case 2: if (picotm_is_irrevocable()) break;
                    tr("{\"e\":\"req\",\"t\":%d,\"k\":\"irr\",\"st\":0,\"v\":0,\"nr\":0}", t);
                    picotm_irrevocable(); break;
                case 4: nr = 1; /* fall through */
                case 3: case 5:
                    tr("{\"e\":\"req\",\"t\":%d,\"k\":\"err\",\"st\":%d,\"v\":%d,\"nr\":%d}", t, est(v), v, nr);
                    if (reqkind == 3) {
                        if (est(v) == PICOTM_ERRNO) picotm_recover_from_errno(v);
                        else if (est(v) == PICOTM_ERROR_CODE) picotm_recover_from_error_code(v);
                        else picotm_recover_from_siginfo_t(mksig(v));
                    }
                    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                    set_err(&e, v);
                    if (nr) picotm_error_mark_as_non_recoverable(&e);
                    picotm_recover_from_error(&e);
                    break;
                }
            }
            if (i == nev || !nmods[t]) break;
            struct mod* m = &mods[t][rg(&s) % nmods[t]];
            uint16_t h = rg(&s) & 3 ? rg(&s) : (rg(&s) & 1 ? 0xffff : 0);
            uintptr_t x = rg(&s) & 3 ? (rg(&s) << 24) ^ rg(&s) : (rg(&s) & 1 ? ~0ul : 0);
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            picotm_append_event(m->num, h, x, &e);
            tr("{\"e\":\"ev\",\"t\":%d,\"m\":%d,\"x\":\"%x-%lx\",\"ok\":%d,\"ae\":%d,\"ue\":%d}", t, m->id, h, (unsigned long)x, !picotm_error_is_set(&e), !!(m->cbs & 16), !!(m->cbs & 32));
            if (!(i & 3)) vs_yield();
        }
        tr("{\"e\":\"commit\",\"t\":%d}", t); committing = 1;
    picotm_commit
        rec = rec + 1;
        int st = picotm_error_status(), v = 0;
        switch (st) {
        case PICOTM_ERRNO: v = picotm_error_as_errno(); break;
        case PICOTM_ERROR_CODE: v = picotm_error_as_error_code(); break;
        case PICOTM_SIGINFO_T: { const siginfo_t* si = picotm_error_as_siginfo_t(); v = si->si_code == si->si_signo + 3 ? si->si_signo : -1; break; }
        }
        int nr = picotm_error_is_non_recoverable();
        tr("{\"e\":\"rec\",\"t\":%d,\"st\":%d,\"v\":%d,\"nr\":%d}", t, st, v, nr);
        if (nr) { tr("{\"e\":\"stop\",\"t\":%d}", t); tr_flush(); _exit(0); }
        if (rec > 2) no_begin_fault = 1;
        vs_yield();
        if (rec < 3 && (mix(seed, rec) & 3)) { tr("{\"e\":\"again\",\"t\":%d}", t); picotm_restart(); }
    picotm_end
    no_begin_fault = 0;
    tr("{\"e\":\"end\",\"t\":%d}", t);
}

static long en; /* enumeration index */
static void thread_main(int t)
{
    uint64_t s = mix(runseed, t);
    nmods[t] = 0; cbcount = 0; fault_at[0] = fault_at[1] = -1; fault_p = 0; fatal_done = 0;
    int nm, ntx, nev;
    if (wl == 1) {
        static const int nms[] = { 0, 1, 2, 3, 5, 9 };
        nm = nms[rg(&s) % 6]; ntx = 1 + rg(&s) % 4;
        if (nthreads == 1 && !(rg(&s) % 24)) nm = 258;
        fault_p = rg(&s) & 1 ? 8 + rg(&s) % 60 : 0;
        if (nm > 100) fault_p *= 40;
    } else {
        /* program e % 12, then position, then kind */
        static const int nms[] = { 1, 2, 3, 4, 1, 2, 3, 2, 1, 3, 2, 3 };
        int p = en % 12; long x = en / 12;
        nm = nms[p]; ntx = 2 + p % 2;
        fault_at[0] = 1 + x % 24; fault_kind[0] = 1 + (x / 24) % 3;
        x /= 72;
        if (x) { fault_at[1] = fault_at[0] + 1 + (x - 1) % 16; fault_kind[1] = 1 + ((x - 1) / 16) % 3; }
        s = mix(42, p);
    }
    int partial = rg(&s) % 3 == 0;
    for (int i = 0; i < nm; ++i) reg(t, partial ? 127 & rg(&s) : 127);
    for (int k = 0; k < ntx; ++k) {
        nev = rg(&s) % 5; if (!(rg(&s) % 12)) nev = 20 + rg(&s) % 300;
        if (wl != 1 && nev > 20) nev = 20;
        int req = rg(&s) % 3 ? 0 : 1 + rg(&s) % 3;
        if (rg(&s) % 6 == 0 && wl == 1) req = 5;
        if (k == ntx - 1 && nthreads == 1 && wl == 2 && !(rg(&s) & 1)) req = 4;
        int midreg = rg(&s) % 5 == 0;
        one_tx(t, k, mix(s, k), nev, req, midreg);
    }
    picotm_release();
}
static void on_hang(void) { tr("{\"e\":\"hang\",\"t\":%d}", vs_self()); tr_flush(); _exit(98); }

int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install(); mkops();
    vs_on_hang = on_hang;
    wl = !strcmp(argv[1], "rand") ? 1 : !strcmp(argv[1], "fatal") ? 2 : 0;
    fatal_mode = wl == 2;
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s; en = i;
        struct vs_cfg c = { .seed = s, .budget = 400000 };
        c.mode = 0; c.p_sync = 2 + rg(&s) % 8; c.p_mem = rg(&s) & 1 ? 0 : 40;
        nthreads = wl == 1 ? 1 + rg(&s) % 3 : 1;
        tr("{\"e\":\"reset\",\"t\":0,\"run\":%d,\"n\":%d}", i, nthreads);
        if (fatal_mode) {
            tr_flush();
            pid_t p = fork();
            if (p) { int st; waitpid(p, &st, 0); if (WIFEXITED(st) && !WEXITSTATUS(st)) continue; return WIFEXITED(st) ? WEXITSTATUS(st) : 97; }
        }
        vs_run(&c, nthreads, thread_main);
        tr("{\"e\":\"final\",\"t\":0}");
        if (fatal_mode) { tr_flush(); _exit(0); }
    }
    tr_flush();
    return 0;
}
