// FLAVOUR: sched
// EXTRA: vsched.c inst_sync.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield malloc
/* Building blocks of modules: locks, shared objects, tree maps, data attached to pointers.
 * usage: drv_sync WORKLOAD SEED FIRST N OUT */
#include "common.h"
#include "vsched.h"
#include "picotm/picotm-lib-rwlock.h"
#include "picotm/picotm-lib-rwstate.h"
#include "picotm/picotm-lib-shared-ref-obj.h"
#include "picotm/picotm-lib-shared-state.h"
#include "picotm/picotm-lib-global-state.h"
#include "picotm/picotm-lib-shared-treemap.h"
#include "picotm/picotm-lib-treemap.h"
#include "picotm/picotm-ptrdata.h"
#include "picotm/picotm-lib-spinlock.h"
#include "picotm/picotm-lib-ref.h"

static __thread int malloc_fail; /* the n-th allocation from now on fails */
void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n) { if (malloc_fail && !--malloc_fail) { errno = ENOMEM; return NULL; } return __real_malloc(n); }

static int nthreads, nops, wl, oldmode, nlocks;
static uint64_t runseed;
static void begin_tx(void) { }

/* ---------------- locks ---------------- */
static struct picotm_rwlock lk[4];
static const char* stn(struct picotm_rwstate* s)
{ switch (picotm_rwstate_get_status(s)) { case PICOTM_RWSTATE_UNLOCKED: return "u"; case PICOTM_RWSTATE_RDLOCKED: return "r"; case PICOTM_RWSTATE_WRLOCKED: return "w"; } return "?"; }
static const char* errname(struct picotm_error* e, const struct picotm_rwlock* l)
{
    if (!picotm_error_is_set(e)) return "ok";
    if (picotm_error_is_conflicting(e)) return e->value.conflicting_lock == l || !e->value.conflicting_lock ? "conf" : "badlock";
    return "err";
}
static int inside; /* operations under way, bounded for the sake of the model checker */
static void lock_op(int t, struct picotm_rwstate* st, int op, int k)
{
    static const char* ops[] = { "rd", "wr", "un" };
    while (inside >= 4) vs_force();
    ++inside;
    tr("{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"k\":%d,\"old\":%d}", t, ops[op], k, oldmode);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    switch (op) {
    case 0: picotm_rwstate_try_rdlock(&st[k], &lk[k], &e); break;
    case 1: picotm_rwstate_try_wrlock(&st[k], &lk[k], &e); break;
    case 2: picotm_rwstate_unlock(&st[k], &lk[k]); break;
    }
    tr("{\"e\":\"ret\",\"t\":%d,\"r\":\"%s\",\"st\":\"%s\"}", t, errname(&e, &lk[k]), stn(&st[k]));
    --inside;
}
static int crowd; static volatile int crowded;
static void lock_main(int t)
{
    uint64_t s = mix(runseed, t);
    volatile int k; struct picotm_rwstate st[4];
    memset(st, 0x5a, sizeof st);
    for (k = 0; k < nlocks; ++k) picotm_rwstate_init(&st[k]);
    picotm_begin
        if (crowd) { /* everybody reads before the first one leaves */
            lock_op(t, st, 0, 0);
            for (++crowded; crowded < nthreads;) vs_force();
        }
        for (int i = 0; i < nops; ++i) {
            static const int ops[] = { 0, 0, 0, 1, 1, 2, 2 };
            lock_op(t, st, ops[rg(&s) % 7], rg(&s) % nlocks);
            vs_yield();
        }
        for (int i = 0; i < nlocks; ++i) lock_op(t, st, 2, i);
    picotm_commit
    picotm_end
    picotm_release();
}
static void lock_run(void)
{
    memset(lk, 0x5a, sizeof lk);
    for (int k = 0; k < nlocks; ++k) picotm_rwlock_init(&lk[k]);
    vs_run(NULL, nthreads, lock_main);
    struct picotm_rwstate st[4];
    int o = oldmode; oldmode = 0;
    for (int k = 0; k < nlocks; ++k) { picotm_rwstate_init(&st[k]); lock_op(nthreads, st, 1, k); lock_op(nthreads, st, 2, k); picotm_rwstate_uninit(&st[k]); picotm_rwlock_uninit(&lk[k]); }
    oldmode = o;
}

/* ---------------- shared objects ---------------- */
#define SEED_T(t) mix(runseed, t)
static struct picotm_shared_ref16_obj ro;
static int obj_up; /* what the object really is: set up or not */
struct odata { int t, failcond, failfirst; };
static bool o_cond(struct picotm_shared_ref16_obj* o, void* d, struct picotm_error* e)
{
    struct odata* x = d;
    tr("{\"e\":\"cond\",\"t\":%d,\"f\":%d}", x->t, x->failcond);
    vs_yield();
    if (x->failcond == 2) picotm_error_set_errno(e, EBUSY);
    return x->failcond != 1;
}
static void o_first(struct picotm_shared_ref16_obj* o, void* d, struct picotm_error* e)
{
    struct odata* x = d;
    tr("{\"e\":\"first\",\"t\":%d}", x->t);
    vs_yield();
    tr("{\"e\":\"firstdone\",\"t\":%d,\"f\":%d}", x->t, x->failfirst);
    if (x->failfirst) picotm_error_set_errno(e, ENOSPC);
}
static void o_final(struct picotm_shared_ref16_obj* o, void* d, struct picotm_error* e)
{
    struct odata* x = d;
    tr("{\"e\":\"last\",\"t\":%d}", x->t);
    vs_yield();
    tr("{\"e\":\"lastdone\",\"t\":%d}", x->t);
}
struct gs { int x; };
static __thread int gs_failfirst;
static void gs_init(struct gs* g, struct picotm_error* e)
{
    tr("{\"e\":\"first\",\"t\":%d}", vs_self());
    vs_yield();
    tr("{\"e\":\"firstdone\",\"t\":%d,\"f\":%d}", vs_self(), gs_failfirst);
    if (gs_failfirst) picotm_error_set_errno(e, ENOSPC);
}
static void gs_uninit(struct gs* g)
{
    tr("{\"e\":\"last\",\"t\":%d}", vs_self());
    vs_yield();
    tr("{\"e\":\"lastdone\",\"t\":%d}", vs_self());
}
PICOTM_SHARED_STATE(gsx, struct gs);
PICOTM_SHARED_STATE_STATIC_IMPL(gsx, struct gs, gs_init, gs_uninit)
PICOTM_GLOBAL_STATE_STATIC_IMPL(gsx)
static int use_gs;

static void ref_main(int t)
{
    uint64_t s = SEED_T(t); int have = 0;
    for (int i = 0; i < nops || have; ++i) {
        int up = i < nops && (!have || rg(&s) % 5 < 2);
        struct odata d = { t, 0, 0 };
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        if (up) {
            int usecond = !use_gs && rg(&s) & 1, fast = !use_gs && have && !(rg(&s) % 3);
            if (fast) usecond = 0;
            if (!(rg(&s) % 6)) d.failfirst = 1;
            if (usecond && !(rg(&s) % 3)) d.failcond = 1 + (rg(&s) & 1);
            gs_failfirst = d.failfirst;
            tr("{\"e\":\"up\",\"t\":%d,\"fast\":%d}", t, fast);
            if (use_gs) { struct gs* g = PICOTM_GLOBAL_STATE_REF(gsx, &e); (void)g; }
            else if (fast) picotm_shared_ref16_obj_up(&ro, NULL, NULL, NULL, &e);
            else picotm_shared_ref16_obj_up(&ro, &d, usecond ? o_cond : NULL, o_first, &e);
            int err = picotm_error_is_set(&e);
            int got = !err && !d.failcond;
            have += got;
            tr("{\"e\":\"ret\",\"t\":%d,\"r\":\"%s\"}", t, err ? "err" : got ? "ok" : "no");
        } else {
            tr("{\"e\":\"down\",\"t\":%d}", t);
            if (use_gs) PICOTM_GLOBAL_STATE_UNREF(gsx);
            else {
                int usecond = !(rg(&s) % 4);
                if (usecond && rg(&s) & 1) d.failcond = 1;
                picotm_shared_ref16_obj_down(&ro, &d, usecond ? o_cond : NULL, o_final);
            }
            if (!d.failcond) --have;
            tr("{\"e\":\"ret\",\"t\":%d,\"r\":\"%s\"}", t, d.failcond ? "no" : "ok");
        }
        vs_yield();
    }
}
static void ref_run(void)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    memset(&ro, 0x5a, sizeof ro);
    picotm_shared_ref16_obj_init(&ro, &e);
    vs_run(NULL, nthreads, ref_main);
    tr("{\"e\":\"count\",\"t\":0,\"n\":%d}", picotm_shared_ref16_obj_count(&ro));
    picotm_shared_ref16_obj_uninit(&ro);
}

/* ---------------- tree maps ---------------- */
static struct picotm_shared_treemap sm;
static struct picotm_treemap pm;
static int shared_map, nvals;
static __thread int create_fail;
static unsigned long long keys[8];
static uintptr_t mk(unsigned long long key, struct picotm_error* e)
{
    int t = vs_self() < 0 ? 0 : vs_self();
    vs_yield();
    int v = create_fail ? 0 : ++nvals;
    tr("{\"e\":\"create\",\"t\":%d,\"k\":\"%llx\",\"v\":%d}", t, key, v);
    vs_yield();
    if (create_fail) { picotm_error_set_errno(e, ENOSPC); return 0; }
    return (uintptr_t)v * 16;
}
static void rm(uintptr_t v)
{
    int t = vs_self() < 0 ? 0 : vs_self();
    tr("{\"e\":\"destroy\",\"t\":%d,\"v\":%d}", t, v % 16 ? -1 : (int)(v / 16));
}
static uintptr_t s_create(unsigned long long key, struct picotm_shared_treemap* m, struct picotm_error* e) { return mk(key, e); }
static void s_destroy(uintptr_t v, struct picotm_shared_treemap* m) { rm(v); }
static uintptr_t p_create(unsigned long long key, struct picotm_treemap* m, struct picotm_error* e) { return mk(key, e); }
static void p_destroy(uintptr_t v, struct picotm_treemap* m) { rm(v); }
static void p_call(uintptr_t v, unsigned long long key, struct picotm_treemap* m, void* d, struct picotm_error* e)
{ tr("{\"e\":\"each\",\"t\":0,\"k\":\"%llx\",\"v\":%d}", key, (int)(v / 16)); }
static int nkeys;
static void map_main(int t)
{
    uint64_t s = SEED_T(t);
    for (int i = 0; i < nops; ++i) {
        unsigned long long k = keys[rg(&s) % nkeys];
        int cr = rg(&s) % 3 != 0;
        create_fail = !(rg(&s) % 8);
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        int mf = !(rg(&s) % 8) ? 1 + rg(&s) % 4 : 0;
        tr("{\"e\":\"find\",\"t\":%d,\"k\":\"%llx\",\"cr\":%d,\"mf\":%d}", t, k, cr, !!mf);
        malloc_fail = mf;
        uintptr_t v = shared_map ? picotm_shared_treemap_find_value(&sm, k, cr ? s_create : NULL, cr ? s_destroy : NULL, &e)
                                 : picotm_treemap_find_value(&pm, k, cr ? p_create : NULL, &e);
        malloc_fail = 0;
        tr("{\"e\":\"ret\",\"t\":%d,\"r\":\"%s\",\"v\":%d}", t, picotm_error_is_set(&e) ? "err" : "ok", v % 16 ? -1 : (int)(v / 16));
        if (!shared_map && !(rg(&s) % 6)) {
            tr("{\"e\":\"walk\",\"t\":0}");
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            picotm_treemap_for_each_value(&pm, NULL, p_call, &e);
            tr("{\"e\":\"walked\",\"t\":0}");
        }
        vs_yield();
    }
}
static int cmpk(const void* a, const void* b) { unsigned long long x = *(unsigned long long*)a, y = *(unsigned long long*)b; return x < y ? -1 : x > y; }
static void map_run(uint64_t s)
{
    static const int lb[] = { 1, 2, 3, 4, 5, 7, 8, 10, 11, 13 };
    int kb, level;
    level = lb[rg(&s) % 10];
    static const int kbs[] = { 1, 3, 7, 8, 9, 16, 31, 33, 48, 60, 63, 64 };
    kb = kbs[rg(&s) % 12];
    nkeys = 1 + rg(&s) % 8;
    unsigned long long mask = kb == 64 ? ~0ull : (1ull << kb) - 1;
    for (int i = 0; i < nkeys; ++i) {
        unsigned long long k = mix(s, i);
        switch (rg(&s) % 6) {
        case 0: k = mask; break; case 1: k = rg(&s) & 3; break;
        case 2: if (i) k = keys[i - 1] ^ (1ull << (rg(&s) % kb)); break;
        case 3: k = k >> (rg(&s) % 64); break; }
        keys[i] = k & mask;
    }
    qsort(keys, nkeys, sizeof *keys, cmpk);
    int n = 0; for (int i = 0; i < nkeys; ++i) if (!n || keys[n - 1] != keys[i]) keys[n++] = keys[i];
    nkeys = n; nvals = 0;
    char b[256] = ""; int o = 0;
    for (int i = 0; i < nkeys; ++i) o += sprintf(b + o, "%s\"%llx\"", i ? "," : "", keys[i]);
    tr("{\"e\":\"keys\",\"t\":0,\"ks\":[%s],\"kb\":%d,\"lb\":%d}", b, kb, level);
    memset(&sm, 0x5a, sizeof sm); memset(&pm, 0x5a, sizeof pm);
    if (shared_map) { picotm_shared_treemap_init(&sm, kb, level); vs_run(NULL, nthreads, map_main); }
    else { picotm_treemap_init(&pm, level); vs_run(NULL, 1, map_main); }
    tr("{\"e\":\"uninit\",\"t\":0}");
    if (shared_map) picotm_shared_treemap_uninit(&sm, s_destroy); else picotm_treemap_uninit(&pm, p_destroy);
}

/* ---------------- data attached to pointers ---------------- */
static int ptr_all;
static void ptr_main(int t)
{
    uint64_t s = SEED_T(t);
    for (int i = 0; i < nops; ++i) {
        int a = rg(&s) % nkeys; const void* p = (const void*)(uintptr_t)keys[a];
        int v = 1 + rg(&s) % 3, cur = rg(&s) % 4;
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        static const char* ops[] = { "sset", "stas", "sclr", "sget", "lset", "lclr", "lget" };
        int op = rg(&s) % 7, r = 0;
        if (t >= ptr_all && op < 4 && i < 2) op = rg(&s) & 1 ? 3 : 2;
        tr("{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"a\":%d,\"v\":%d,\"c\":%d}", t, ops[op], a, v, cur);
        switch (op) {
        case 0: ptr_set_shared_data(p, (void*)(uintptr_t)v, &e); break;
        case 1: r = ptr_test_and_set_shared_data(p, (void*)(uintptr_t)cur, (void*)(uintptr_t)v, &e); break;
        case 2: ptr_clear_shared_data(p, &e); break;
        case 3: r = (int)(uintptr_t)ptr_get_shared_data(p, &e); break;
        case 4: ptr_set_data(p, (void*)(uintptr_t)v, &e); break;
        case 5: ptr_clear_data(p, &e); break;
        case 6: r = (int)(uintptr_t)ptr_get_data(p, &e); break;
        }
        if (picotm_error_is_set(&e)) r = -1;
        tr("{\"e\":\"ret\",\"t\":%d,\"r\":%d}", t, r);
        vs_yield();
    }
}
static int nptr_done, ptr_up;
static void ptr_thread(int t)
{
    if (t == 0) { /* keeps the shared data alive until the end */
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        ptr_set_data((void*)8, NULL, &e);
        ptr_up = 1;
        while (nptr_done < nthreads - 1) vs_force();
    } else {
        while (!ptr_up) vs_force();
        ptr_main(t);
        ++nptr_done;
    }
    picotm_release();
}
static void ptr_run(uint64_t s)
{
    nkeys = 1 + rg(&s) % 5;
    for (int i = 0; i < nkeys; ++i) {
        unsigned long long k = mix(s, i);
        switch (rg(&s) % 4) { case 0: k = 0x7ffff000ull + i * 8; break; case 1: k &= 0x7fffffffffffull; break; case 2: k = i ? keys[i - 1] ^ (1ull << (rg(&s) % 64)) : 0; break; }
        keys[i] = k;
        for (int j = 0; j < i; ++j) if (keys[j] == k) { keys[i] = k = mix(k, i); j = -1; }
    }
    ptr_all = rg(&s) & 1 ? 99 : 1; nptr_done = ptr_up = 0;
    nthreads += 1;
    vs_run(NULL, nthreads, ptr_thread);
}

/* ---------------- spin locks and shared reference counters ---------------- */
static struct picotm_spinlock sl; static struct picotm_shared_ref16 sr;
int inst_sync(const char* op, struct picotm_spinlock*, struct picotm_shared_ref16*);
static int spin_op(int t, const char* op)
{
    tr("{\"e\":\"call\",\"t\":%d,\"op\":\"%s\"}", t, op);
    int r = inst_sync(op, &sl, &sr);
    tr("{\"e\":\"ret\",\"t\":%d,\"r\":%d}", t, r);
    return r;
}
static void spin_main(int t)
{
    uint64_t s = SEED_T(t); int have = 0, refs = 0;
    for (int i = 0; i < nops; ++i) {
        switch (rg(&s) % 7) {
        case 0: if (have) { spin_op(t, "unlock"); have = 0; } else { spin_op(t, "lock"); have = 1; } break;
        case 1: case 2: if (!have) have = spin_op(t, "try"); else if (rg(&s) & 1) { spin_op(t, "unlock"); have = 0; } break;
        case 3: case 4: spin_op(t, "up"); ++refs; break;
        case 5: if (refs) { spin_op(t, "down"); --refs; } break;
        case 6: spin_op(t, "count"); break;
        }
        vs_yield();
    }
    if (have) spin_op(t, "unlock");
    while (refs--) spin_op(t, "down");
}
static void spin_run(uint64_t s)
{
    int c = rg(&s) % 3;
    memset(&sl, 0x5a, sizeof sl); memset(&sr, 0x5a, sizeof sr);
    if (rg(&s) & 1) sl = (struct picotm_spinlock)PICOTM_SPINLOCK_INITIALIZER; else picotm_spinlock_init(&sl);
    picotm_ref_init(&sr, c);
    tr("{\"e\":\"start\",\"t\":0,\"c\":%d}", c);
    vs_run(NULL, nthreads, spin_main);
    spin_op(0, "try"); spin_op(0, "unlock"); spin_op(0, "count");
    picotm_spinlock_uninit(&sl);
}

static void on_hang(void) { tr("{\"e\":\"hang\",\"t\":%d}", vs_self()); tr_flush(); _exit(98); }

int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    if (!strcmp(argv[1], "probe")) {
        int c = 0; struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        picotm_rwlock_init(&lk[0]);
        for (; c < 1000; ++c) { picotm_rwlock_try_rdlock(&lk[0], &e); if (picotm_error_is_set(&e)) break; }
        printf("%d\n", c); return 0;
    }
    tr_open(argv[5]); crash_install(); vs_on_hang = on_hang;
    static const unsigned ps[] = { 2, 4, 8, 0 }, pmm[] = { 0, 6, 24, 96 };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 400000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pmm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 50 + rg(&s) % 1000;
        oldmode = rg(&s) & 1; c.tick_ns = oldmode ? 700000000l : 0;
        nthreads = 2 + rg(&s) % 3; nops = 2 + rg(&s) % 12; nlocks = 1 + rg(&s) % 2;
        vs_config(&c);
        tr("{\"e\":\"reset\",\"t\":0,\"run\":%d,\"n\":%d}", i, nthreads);
        if (!strcmp(argv[1], "lock")) lock_run();
        else if (!strcmp(argv[1], "lockn")) { nthreads = 14 + rg(&s) % 8; nops = 2 + rg(&s) % 4; nlocks = 1; crowd = rg(&s) & 1; crowded = 0; lock_run(); }
        else if (!strcmp(argv[1], "ref")) { use_gs = rg(&s) % 3 == 0; ref_run(); }
        else if (!strcmp(argv[1], "map")) { shared_map = rg(&s) % 3 != 0; if (!shared_map) nops += 10; map_run(s); }
        else if (!strcmp(argv[1], "ptr")) ptr_run(s);
        else if (!strcmp(argv[1], "spin")) spin_run(s);
        else return 3;
        tr("{\"e\":\"final\",\"t\":0}");
    }
    tr_flush();
    return 0;
}
