// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* Transactions on containers.
 * usage: drv_txlib WORKLOAD SEED FIRST N OUT      WORKLOAD: list queue stack mset (one thread) conc (several) */
#include "common.h"
#include "vsched.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"

#define NC 8
#define NE 32
#define NT 4
static struct ent { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } E[NE];
static struct txlist_state LS[2]; static struct txqueue_state QS[2]; static struct txstack_state SS[2]; static struct txmultiset_state MS[2];
static int keys[5] = { 10, 20, 30, 40, 50 };
#define ID(p, f) ((int)(((struct ent*)((char*)(p) - offsetof(struct ent, f))) - E))
static const void* mkey(struct txmultiset_entry* e) { return keys + ID(e, m) % 5; }
static int mcmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }

static uint32_t own[NT], cur[NT]; /* entries a thread may insert: committed, in this attempt */
static int nthreads, ntx, wl; static uint64_t runseed;

static void w_begin(void* d, struct picotm_error* e) { tr("{\"e\":\"begin\",\"t\":%d}", vs_self()); }
static void w_apply(void* d, struct picotm_error* e) { tr("{\"e\":\"apply\",\"t\":%d}", vs_self()); }
static void w_undo(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\",\"t\":%d}", vs_self()); }
static void w_finish(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\",\"t\":%d}", vs_self()); }
static const struct picotm_module_ops w_ops = { w_begin, NULL, w_apply, w_undo, NULL, NULL, w_finish, NULL };

static void ev(int c, const char* op, int x, int p, const int* r, int n)
{
    char b[600]; int o = 0; b[0] = 0;
    for (int i = 0; i < n; ++i) o += sprintf(b + o, i ? ",%d" : "%d", r[i]);
    tr("{\"e\":\"op\",\"t\":%d,\"c\":%d,\"op\":\"%s\",\"x\":%d,\"p\":%d,\"r\":[%s]}", vs_self(), c, op, x, p, b);
}
static int ev1(int c, const char* op, int x, int p, int r) { ev(c, op, x, p, &r, 1); return r; }
static int pick(uint64_t* s, uint32_t m)
{
    if (!m) return -1;
    int k = rg(s) % __builtin_popcount(m);
    for (int i = 0; i < NE; ++i) if (m >> i & 1 && !k--) return i;
    return -1;
}
static void gone(int t, int x) { cur[t] |= 1u << x; }

static void op_list(int t, int c, uint64_t* s)
{
    struct txlist* L = txlist_of_state_tx(&LS[c / 4]);
    int r[100], n = 0, x;
    struct txlist_entry* e;
    switch (rg(s) % 14) {
    case 0: case 1: case 2: case 3: case 4:
        if ((x = pick(s, cur[t])) < 0) return;
        cur[t] &= ~(1u << x);
        txlist_entry_init_tm(&E[x].l);
        switch (rg(s) % 4) {
        case 0: txlist_push_front_tx(L, &E[x].l); ev(c, "push_front", x, -1, 0, 0); return;
        case 1: txlist_push_back_tx(L, &E[x].l); ev(c, "push_back", x, -1, 0, 0); return;
        }
        { /* insert somewhere */
            for (e = txlist_begin_tx(L); e != txlist_end_tx(L) && n < 60; e = txlist_entry_next_tx(e)) r[n++] = ID(e, l);
            int k = rg(s) % (n + 1);
            int p = k == n ? -1 : r[k];
            txlist_insert_tx(L, &E[x].l, p < 0 ? txlist_end_tx(L) : &E[p].l);
            ev(c, "insert", x, p, 0, 0);
        }
        return;
    case 5: case 6: case 7:
        if (ev1(c, "empty", -1, -1, txlist_empty_tx(L))) return;
        switch (rg(s) % 3) {
        case 0: x = ID(txlist_front_tx(L), l); ev1(c, "front", -1, -1, x); txlist_pop_front_tx(L); ev(c, "pop_front", -1, -1, 0, 0); break;
        case 1: x = ID(txlist_back_tx(L), l); ev1(c, "back", -1, -1, x); txlist_pop_back_tx(L); ev(c, "pop_back", -1, -1, 0, 0); break;
        default:
            for (e = txlist_begin_tx(L); e != txlist_end_tx(L) && n < 60; e = txlist_entry_next_tx(e)) r[n++] = ID(e, l);
            ev(c, "iter", -1, -1, r, n);
            x = r[rg(s) % n];
            txlist_erase_tx(L, &E[x].l); ev(c, "erase", x, -1, 0, 0);
        }
        if (rg(s) & 1) txlist_entry_uninit_tm(&E[x].l);
        gone(t, x);
        return;
    case 8: ev1(c, "size", -1, -1, txlist_size_tx(L)); return;
    case 9: if (rg(s) % 3) return;
        for (e = txlist_begin_tx(L); e != txlist_end_tx(L) && n < 60; e = txlist_entry_next_tx(e)) r[n++] = ID(e, l);
        txlist_clear_tx(L); ev(c, "clear", -1, -1, 0, 0);
        while (n) gone(t, r[--n]);
        return;
    case 10: if (ev1(c, "empty", -1, -1, txlist_empty_tx(L))) return;
        for (e = txlist_back_tx(L); e != txlist_end_tx(L) && n < 60; e = txlist_entry_prev_tx(e)) r[n++] = ID(e, l);
        ev(c, "riter", -1, -1, r, n); return;
    default:
        for (e = txlist_begin_tx(L); e != txlist_end_tx(L) && n < 60; e = txlist_entry_next_tx(e)) r[n++] = ID(e, l);
        ev(c, "iter", -1, -1, r, n); return;
    }
}
static void op_queue(int t, int c, uint64_t* s)
{
    struct txqueue* Q = txqueue_of_state_tx(&QS[c / 4]);
    int x;
    switch (rg(s) % 10) {
    case 0: case 1: case 2: case 3:
        if ((x = pick(s, cur[t])) < 0) return;
        cur[t] &= ~(1u << x);
        txqueue_entry_init_tm(&E[x].q);
        txqueue_push_tx(Q, &E[x].q); ev(c, "push", x, -1, 0, 0); return;
    case 4: case 5: case 6:
        if (ev1(c, "empty", -1, -1, txqueue_empty_tx(Q))) return;
        x = ID(txqueue_front_tx(Q), q); ev1(c, "front", -1, -1, x);
        txqueue_pop_tx(Q); ev(c, "pop", -1, -1, 0, 0);
        if (rg(s) & 1) txqueue_entry_uninit_tm(&E[x].q);
        gone(t, x); return;
    case 7: ev1(c, "empty", -1, -1, txqueue_empty_tx(Q)); return;
    case 8: ev1(c, "size", -1, -1, txqueue_size_tx(Q)); return;
    default: if (ev1(c, "size", -1, -1, txqueue_size_tx(Q)) == 0) return;
        ev1(c, "back", -1, -1, ID(txqueue_back_tx(Q), q)); return;
    }
}
static void op_stack(int t, int c, uint64_t* s)
{
    struct txstack* S = txstack_of_state_tx(&SS[c / 4]);
    int x;
    switch (rg(s) % 10) {
    case 0: case 1: case 2: case 3:
        if ((x = pick(s, cur[t])) < 0) return;
        cur[t] &= ~(1u << x);
        txstack_entry_init_tm(&E[x].s);
        txstack_push_tx(S, &E[x].s); ev(c, "push", x, -1, 0, 0); return;
    case 4: case 5: case 6:
        if (ev1(c, "empty", -1, -1, txstack_empty_tx(S))) return;
        x = ID(txstack_top_tx(S), s); ev1(c, "top", -1, -1, x);
        txstack_pop_tx(S); ev(c, "pop", -1, -1, 0, 0);
        if (rg(s) & 1) txstack_entry_uninit_tm(&E[x].s);
        gone(t, x); return;
    case 7: ev1(c, "empty", -1, -1, txstack_empty_tx(S)); return;
    case 8: ev1(c, "size", -1, -1, txstack_size_tx(S)); return;
    default: if (ev1(c, "size", -1, -1, txstack_size_tx(S)) == 0) return;
        ev1(c, "top", -1, -1, ID(txstack_top_tx(S), s)); return;
    }
}
static void op_mset(int t, int c, uint64_t* s)
{
    struct txmultiset* M = txmultiset_of_state_tx(&MS[c / 4]);
    int r[100], n = 0, x, k = rg(s) % 5; const int key = keys[k];
    struct txmultiset_entry* e, *f;
    switch (rg(s) % 20) {
    case 0: case 1: case 2: case 3: case 4: case 5:
        if ((x = pick(s, cur[t])) < 0) return;
        cur[t] &= ~(1u << x);
        txmultiset_entry_init_tm(&E[x].m);
        txmultiset_insert_tx(M, &E[x].m); ev(c, "insert", x, -1, 0, 0); return;
    case 6: case 7: case 8: case 9:
        for (e = txmultiset_begin_tx(M); e != txmultiset_end_tx(M) && n < 60; e = txmultiset_entry_next_tx(e)) r[n++] = ID(e, m);
        if (!n) { ev1(c, "empty", -1, -1, txmultiset_empty_tx(M)); return; }
        x = r[rg(s) % n];
        txmultiset_erase_tx(M, &E[x].m); ev(c, "erase", x, -1, 0, 0);
        if (rg(s) & 1) txmultiset_entry_uninit_tm(&E[x].m);
        gone(t, x); return;
    case 10: ev1(c, "size", -1, -1, txmultiset_size_tx(M)); return;
    case 11: if (rg(s) % 3) { ev1(c, "empty", -1, -1, txmultiset_empty_tx(M)); return; }
        for (e = txmultiset_begin_tx(M); e != txmultiset_end_tx(M) && n < 60; e = txmultiset_entry_next_tx(e)) r[n++] = ID(e, m);
        txmultiset_clear_tx(M); ev(c, "clear", -1, -1, 0, 0);
        while (n) gone(t, r[--n]);
        return;
    case 12: case 13: e = txmultiset_find_tx(M, &key); ev1(c, "find", -1, k, e == txmultiset_end_tx(M) ? -1 : ID(e, m)); return;
    case 14: ev1(c, "count", -1, k, txmultiset_count_tx(M, &key)); return;
    case 15: case 16:
        e = txmultiset_lower_bound_tx(M, &key); f = txmultiset_upper_bound_tx(M, &key);
        ev1(c, "upper", -1, k, f == txmultiset_end_tx(M) ? -1 : ID(f, m));
        for (; e != f && e != txmultiset_end_tx(M) && n < 60; e = txmultiset_entry_next_tx(e)) r[n++] = ID(e, m);
        if (e != f) r[n++] = -1;
        ev(c, "range", -1, k, r, n); return;
    case 17: if (txmultiset_empty_tx(M)) return;
        for (n = txmultiset_size_tx(M), e = txmultiset_end_tx(M), x = 0; x < n && n < 60; ++x) { e = txmultiset_entry_prev_tx(e); if (e == txmultiset_end_tx(M)) { r[x] = -1; break; } r[x] = ID(e, m); }
        ev(c, "riter", -1, -1, r, n); return;
    default:
        for (e = txmultiset_begin_tx(M); e != txmultiset_end_tx(M) && n < 60; e = txmultiset_entry_next_tx(e)) r[n++] = ID(e, m);
        ev(c, "iter", -1, -1, r, n); return;
    }
}

static void one_tx(int t, int k)
{
    const uint64_t seed = mix(mix(runseed, t), k);
    volatile int conf = 0, rec = 0;
    uint64_t k0 = seed;
    const int nconf = rg(&k0) % 3 ? 0 : 1 + rg(&k0) % 2;
    const int werr = rg(&k0) % 4 == 0;
    const int one = rg(&k0) % 3;
    vs_yield();
    picotm_begin
        uint64_t s = mix(seed, 7 + conf + 10 * rec);
        int nops = 1 + rg(&s) % (wl == 4 ? 6 : 10);
        const int at = rg(&s) % (nops + 1);
        cur[t] = own[t];
        for (int i = 0; i <= nops; ++i) {
            if (i == at && conf < nconf) { conf = conf + 1; picotm_resolve_conflict(NULL); }
            if (i == at && werr && !rec) picotm_recover_from_errno(5);
            if (i == nops) break;
            int c = wl < 4 ? wl + 4 * (one ? 0 : rg(&s) & 1) : rg(&s) % (one ? 4 : NC);
            switch (c % 4) {
            case 0: op_list(t, c, &s); break;
            case 1: op_queue(t, c, &s); break;
            case 2: op_stack(t, c, &s); break;
            default: op_mset(t, c, &s); break;
            }
        }
    picotm_commit
        rec = rec + 1;
        cur[t] = own[t];
        if ((seed & 3) && rec < 3) { conf = 0; picotm_restart(); }
    picotm_end
    own[t] = cur[t];
}
static void thread_main(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&w_ops, NULL, &e);
    for (int k = 0; k < ntx; ++k) one_tx(t, k);
    picotm_release();
}
static void on_hang(void) { tr("{\"e\":\"hang\",\"t\":%d}", vs_self()); tr_flush(); _exit(98); }

static int fin[256], nfin;
static void add(int x) { if (nfin < 256) fin[nfin++] = x; }
static void ul(struct txlist_entry* e, void* d) { add(ID(e, l)); }
static void uq(struct txqueue_entry* e, void* d) { add(ID(e, q)); }
static void us(struct txstack_entry* e, void* d) { add(ID(e, s)); }
static void um(struct txmultiset_entry* e, void* d) { add(ID(e, m)); }
static void final(int c)
{
    int j = c / 4;
    nfin = 0;
    switch (c % 4) {
    case 0: txlist_state_clear_and_uninit_entries(&LS[j], ul, NULL); txlist_state_uninit(&LS[j]); break;
    case 1: txqueue_state_clear_and_uninit_entries(&QS[j], uq, NULL); txqueue_state_uninit(&QS[j]); break;
    case 2: txstack_state_clear_and_uninit_entries(&SS[j], us, NULL); txstack_state_uninit(&SS[j]); break;
    default: txmultiset_state_clear_and_uninit_entries(&MS[j], um, NULL); txmultiset_state_uninit(&MS[j]); break;
    }
    char b[2000]; int o = 0; b[0] = 0;
    for (int i = 0; i < nfin; ++i) o += sprintf(b + o, i ? ",%d" : "%d", fin[i]);
    tr("{\"e\":\"final\",\"t\":0,\"c\":%d,\"r\":[%s]}", c, b);
}

int main(int argc, char** argv)
{
    static const char* W[] = { "list", "queue", "stack", "mset", "conc" };
    for (wl = 0; wl < 4 && strcmp(W[wl], argv[1]); ++wl);
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    vs_on_hang = on_hang;
    static const unsigned ps[] = { 2, 4, 8, 16 }, pm[] = { 0, 6, 24, 96 };
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i * 5 + wl); runseed = s;
        struct vs_cfg c = { .seed = s, .budget = 1000000 };
        c.mode = rg(&s) % 3 == 0;
        c.p_sync = ps[rg(&s) % 4]; c.p_mem = pm[rg(&s) % 4];
        c.depth = 1 + rg(&s) % 8; c.len = 300 + rg(&s) % 3000;
        c.tick_ns = (rg(&s) & 3) ? (rg(&s) & 1 ? 1000 : 0) : 700000000l;
        nthreads = wl == 4 ? 2 + rg(&s) % 3 : 1; ntx = 1 + rg(&s) % (wl == 4 ? 4 : 8);
        memset(E, 0x5a, sizeof E);
        for (int t = 0; t < NT; ++t) { own[t] = 0; for (int j = t; j < NE; j += nthreads) if (t < nthreads) own[t] |= 1u << j; }
        if (rg(&s) & 1) for (int t = 0; t < NT; ++t) own[t] &= 0x7fff;
        memset(LS, 0x5a, sizeof LS); memset(QS, 0x5a, sizeof QS); memset(SS, 0x5a, sizeof SS); memset(MS, 0x5a, sizeof MS);
        for (int j = 0; j < 2; ++j) { txlist_state_init(&LS[j]); txqueue_state_init(&QS[j]); txstack_state_init(&SS[j]); txmultiset_state_init(&MS[j], mkey, mcmp); }
        tr("{\"e\":\"reset\",\"t\":0,\"run\":%d,\"n\":%d}", i, nthreads);
        vs_run(&c, nthreads, thread_main);
        for (int j = 0; j < NC; ++j) if (wl == 4 || j % 4 == wl) final(j);
    }
    tr_flush();
    return 0;
}
