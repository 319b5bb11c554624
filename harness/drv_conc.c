// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* Multi-threaded transactions over shared memory under the controlled scheduler.
 * usage: drv_conc WORKLOAD SEED FIRST N OUT */
#include "common.h"
#include "vsched.h"
#include "picotm/picotm-tm.h"

#define MEMN 40
static uint8_t mem[MEMN] __attribute__((aligned(64)));
static int nthreads, ntx, flavour_tx;
static uint64_t runseed;

/* witness module: its callbacks are the linearization points of begin, commit, rollback and end */
static void w_begin(void* d, struct picotm_error* e)
{ tr("{\"e\":\"begin\",\"t\":%d,\"irr\":%d,\"r\":%lu}", vs_self(), picotm_is_irrevocable(), picotm_number_of_restarts()); }
static void w_prep(void* d, int irr, struct picotm_error* e)
{ tr("{\"e\":\"prep\",\"t\":%d,\"irr\":%d}", vs_self(), !!irr); }
static void w_apply(void* d, struct picotm_error* e) { tr("{\"e\":\"apply\",\"t\":%d}", vs_self()); }
static void w_undo(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\",\"t\":%d}", vs_self()); }
static void w_finish(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\",\"t\":%d}", vs_self()); }
static const struct picotm_module_ops w_ops = { w_begin, w_prep, w_apply, w_undo, NULL, NULL, w_finish, NULL };

static void op_ld(unsigned o, unsigned n)
{
    uint8_t b[MEMN];
    load_tx(mem + o, b, n);
    tr("{\"e\":\"ld\",\"t\":%d,\"o\":%u,\"b\":%s}", vs_self(), o, tr_bytes(b, n));
}
static void op_st(unsigned o, unsigned n, uint64_t* s)
{
    uint8_t b[MEMN];
    for (unsigned i = 0; i < n; ++i) b[i] = 1 + rg(s) % 250;
    store_tx(mem + o, b, n);
    tr("{\"e\":\"st\",\"t\":%d,\"o\":%u,\"b\":%s}", vs_self(), o, tr_bytes(b, n));
}
static void op_inc(unsigned o)
{
    uint8_t b;
    load_tx(mem + o, &b, 1);
    tr("{\"e\":\"ld\",\"t\":%d,\"o\":%u,\"b\":[%u]}", vs_self(), o, b);
    ++b;
    store_tx(mem + o, &b, 1);
    tr("{\"e\":\"st\",\"t\":%d,\"o\":%u,\"b\":[%u]}", vs_self(), o, b);
}
static void op_priv(unsigned o, unsigned n, int wr, uint64_t* s)
{
    /* whole blocks that this transaction has not touched before */
    privatize_tx(mem + o, n, wr ? PICOTM_TM_PRIVATIZE_LOADSTORE : PICOTM_TM_PRIVATIZE_LOAD);
    vs_yield();
    tr("{\"e\":\"ld\",\"t\":%d,\"o\":%u,\"b\":%s}", vs_self(), o, tr_bytes(mem + o, n));
    if (wr) {
        for (unsigned i = 0; i < n; ++i) { if (rg(s) & 1) mem[o + i] = 1 + rg(s) % 250; }
        tr("{\"e\":\"st\",\"t\":%d,\"o\":%u,\"b\":%s}", vs_self(), o, tr_bytes(mem + o, n));
        vs_yield();
    }
}

static void one_tx(int t, int k)
{
    const uint64_t seed = mix(mix(runseed, t), k);
    volatile int rec = 0, forced = 0;
    uint64_t k0 = seed;
    const int nops = 1 + rg(&k0) % 5;
    const int want_irr = !(rg(&k0) % (flavour_tx == 1 ? 3 : 12));
    const int want_err = !(rg(&k0) % 10);
    const int want_conf = rg(&k0) % (flavour_tx == 2 ? 2 : 8) ? 0 : 1 + rg(&k0) % (flavour_tx == 2 ? 14 : 3);
    const int spread = (rg(&k0) & 1) ? MEMN : 16;
    vs_yield();
    picotm_begin
        uint64_t s = mix(seed, 7);
        unsigned touched = 0;
        int at = rg(&s) % nops;
        for (int i = 0; i < nops; ++i) {
            if (i == at) {
                if (want_irr && !picotm_is_irrevocable()) {
                    tr("{\"e\":\"reqirr\",\"t\":%d}", t);
                    picotm_irrevocable();
                }
                if (want_conf > forced && !picotm_is_irrevocable()) {
                    forced = forced + 1;
                    tr("{\"e\":\"reqconf\",\"t\":%d}", t);
                    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                    picotm_error_set_conflicting(&e, NULL);
                    picotm_recover_from_error(&e);
                }
                if (want_err && !rec) {
                    tr("{\"e\":\"reqerr\",\"t\":%d,\"v\":%d}", t, 1 + k);
                    picotm_recover_from_errno(1 + k);
                }
            }
            unsigned n = (rg(&s) & 3) ? 1 + rg(&s) % 3 : 1 + rg(&s) % 11;
            unsigned o = rg(&s) % (spread - n + 1);
            unsigned m = 0; for (unsigned b = o / 8; b <= (o + n - 1) / 8; ++b) m |= 1u << b;
            switch (rg(&s) % 7) {
            case 0: case 1: op_ld(o, n); touched |= m; break;
            case 2: case 3: op_st(o, n, &s); touched |= m; break;
            case 4: case 5: op_inc(o); touched |= 1u << (o / 8); break;
            case 6: {
                unsigned b = o / 8;
                if (!(touched & (1u << b))) { op_priv(b * 8, 8, rg(&s) & 1, &s); touched |= 1u << b; }
                else op_ld(o, n), touched |= m;
                break; }
            }
        }
    picotm_commit
        rec = rec + 1;
        tr("{\"e\":\"rec\",\"t\":%d,\"st\":%d,\"v\":%d,\"nr\":%d}", t, (int)picotm_error_status(), picotm_error_as_errno(), picotm_error_is_non_recoverable());
        vs_yield();
        if ((seed & 3) && rec < 3) { tr("{\"e\":\"again\",\"t\":%d}", t); picotm_restart(); }
    picotm_end
    tr("{\"e\":\"end\",\"t\":%d}", t);
}

static void thread_main(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&w_ops, NULL, &e);
    for (int k = 0; k < ntx; ++k) one_tx(t, k);
    picotm_release();
}
static void on_hang(void)
{
    tr("{\"e\":\"hang\",\"t\":%d}", vs_self());
    tr_flush();
    _exit(98);
}

static int probe_result = -1;
static void probe_main(int t)
{
    picotm_begin
        if (picotm_is_irrevocable() || picotm_number_of_restarts() > 2000) probe_result = picotm_is_irrevocable() ? (int)picotm_number_of_restarts() : -1;
        else picotm_resolve_conflict(NULL);
    picotm_commit
    picotm_end
    picotm_release();
}

int main(int argc, char** argv)
{
    if (!strcmp(argv[1], "probe")) { /* after how many conflicts does a transaction run irrevocably? */
        struct vs_cfg c = { .seed = 1, .budget = 4000000, .p_sync = 8 };
        vs_run(&c, 1, probe_main);
        printf("%d\n", probe_result);
        return 0;
    }
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    vs_on_hang = on_hang;
    flavour_tx = !strcmp(argv[1], "irr") ? 1 : !strcmp(argv[1], "conf") ? 2 : 0;
    static const unsigned ps[] = { 2, 4, 8, 16 }, pm[] = { 0, 6, 24, 96 };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 400000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 300 + rg(&s) % 3000;
        c.tick_ns = (rg(&s) & 3) ? (rg(&s) & 1 ? 1000 : 0) : 700000000l;
        nthreads = 2 + rg(&s) % 3; ntx = 1 + rg(&s) % 4;
        for (int j = 0; j < MEMN; ++j) mem[j] = rg(&s) & 3 ? rg(&s) % 250 : 0;
        tr("{\"e\":\"reset\",\"t\":0,\"run\":%d,\"n\":%d,\"mem\":%s}", i, nthreads, tr_bytes(mem, MEMN));
        vs_run(&c, nthreads, thread_main);
        tr("{\"e\":\"final\",\"t\":0,\"mem\":%s}", tr_bytes(mem, MEMN));
    }
    tr_flush();
    return 0;
}
