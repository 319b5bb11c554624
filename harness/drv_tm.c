// FLAVOUR: sched
// EXTRA: vsched.c
// WRAP: pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield
/* One transaction after the other on memory, with a peer that probes in between.
 * usage: drv_tm WORKLOAD SEED FIRST N OUT      WORKLOAD: seq undo priv */
#include "common.h"
#include "vsched.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"

#define N 48
#define B 8 /* only to aim at block borders */
static uint8_t room[N + 256] __attribute__((aligned(64)));
static uint8_t* mem;
static uint64_t seed0;
static int wl, first_run, nruns;

/* generator's own idea of the state; used to choose sensible operations */
static uint8_t sh[N]; static uint8_t pl[N], ps[N], dc[N];
static const uint8_t ABC[] = { 0, 1, 2, 200 };

/* ---- peer ---- */
static volatile int p_cmd, p_done, p_conf, p_quit; static unsigned p_o, p_n; static uint8_t p_buf[N];
static void peer(void)
{
    while (!p_quit) {
        if (!p_cmd) { vs_force(); continue; }
        p_conf = 0;
        picotm_begin
            if (picotm_number_of_restarts()) p_conf = 1;
            else if (p_cmd == 1) load_tx(mem + p_o, p_buf, p_n);
            else store_tx(mem + p_o, p_buf, p_n);
        picotm_commit
            p_conf = 2;
        picotm_end
        p_cmd = 0; p_done = 1;
    }
    picotm_release();
}
static void ask(int cmd, unsigned o, unsigned n, const uint8_t* b)
{
    p_o = o; p_n = n; if (b) memcpy(p_buf, b, n);
    p_done = 0; p_cmd = cmd;
    while (!p_done) vs_force();
    if (p_conf) tr("{\"e\":\"pconf\",\"k\":%d,\"o\":%u,\"n\":%u,\"r\":%d}", cmd, o, n, p_conf);
    else {
        tr("{\"e\":\"%s\",\"o\":%u,\"b\":%s}", cmd == 1 ? "pld" : "pst", o, tr_bytes(p_buf, n));
        if (cmd == 2) memcpy(sh + o, p_buf, n);
    }
}

static unsigned any(const uint8_t* f, unsigned o, unsigned n) { for (unsigned i = o; i < o + n; ++i) if (f[i]) return 1; return 0; }
static unsigned all(const uint8_t* f, unsigned o, unsigned n) { for (unsigned i = o; i < o + n; ++i) if (!f[i]) return 0; return 1; }
static unsigned anyblk(const uint8_t* f, unsigned o, unsigned n) { unsigned a = o / B * B, e = (o + n + B - 1) / B * B; if (e > N) e = N; return any(f, a, e - a); }
#define TOP (N - 4) /* the last bytes hold all terminators and are not stored to */

static void region(uint64_t* s, unsigned* o, unsigned* n)
{
    switch (rg(s) % 5) {
    case 0: *n = 1; break;
    case 1: *n = 1 + rg(s) % 4; break;
    case 2: *n = 1 + rg(s) % 12; break;
    case 3: *n = B * (1 + rg(s) % 3); break;
    default: *n = 1 + rg(s) % 30; break;
    }
    if (rg(s) % 3 == 0) *o = rg(s) % ((TOP - *n) / B + 1) * B;
    else *o = rg(s) % (TOP - *n + 1);
}
static void fresh(uint64_t* s, uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; ++i) b[i] = rg(s) & 1 ? ABC[rg(s) & 3] : 3 + rg(s) % 90; }

/* ---- the helpers for C types, and for a type of one's own ---- */
struct own12 { uint8_t b[12]; };
PICOTM_TM_LOAD_TX(own12, struct own12)
PICOTM_TM_STORE_TX(own12, struct own12)
PICOTM_TM_PRIVATIZE_TX(own12, struct own12)
#define TYPES(X) X(char, char) X(schar, signed char) X(uchar, unsigned char) X(short, short) X(ushort, unsigned short) \
    X(int, int) X(uint, unsigned int) X(float, float) X(long, long) X(ulong, unsigned long) X(llong, long long) \
    X(ullong, unsigned long long) X(double, double) X(own12, struct own12)
enum { T_none,
#define X(n, t) T_##n,
TYPES(X)
#undef X
T__Bool, T_ptr, T_ldouble, T_max };
static int type_size(int t)
{
    switch (t) {
#define X(n, t) case T_##n: return sizeof(t);
    TYPES(X)
#undef X
    case T__Bool: return sizeof(_Bool); case T_ptr: return sizeof(void*); case T_ldouble: return sizeof(long double);
    }
    return 0;
}
/* pick a type (its size then replaces *n) or none */
static int type_of(uint64_t* s, unsigned o, unsigned* n)
{
    if (rg(s) & 1) return T_none;
    int t = 1 + rg(s) % (T_max - 1);
    if (o + type_size(t) > TOP) return T_none;
    *n = type_size(t);
    return t;
}
static void typed_load(int ty, void* a, uint8_t* b, unsigned n)
{
    switch (ty) {
#define X(nm, t) case T_##nm: { t v = load_##nm##_tx((const t*)a); memcpy(b, &v, sizeof(v)); return; }
    TYPES(X)
    X(_Bool, _Bool)
#undef X
    case T_ldouble: { long double v = load_ldouble_tx((const long double*)a); memcpy(b, &v, 10); return; }
    case T_ptr: { void* v = load_ptr_tx(a); memcpy(b, &v, sizeof(v)); return; }
    }
    load_tx(a, b, n);
}
static void typed_store(int ty, void* a, const uint8_t* b, unsigned n)
{
    switch (ty) {
#define X(nm, t) case T_##nm: { t v; memcpy(&v, b, sizeof(v)); store_##nm##_tx((t*)a, v); return; }
    TYPES(X)
    X(_Bool, _Bool)
    X(ldouble, long double)
#undef X
    case T_ptr: { void* v; memcpy(&v, b, sizeof(v)); store_ptr_tx(a, v); return; }
    }
    store_tx(a, b, n);
}
static void typed_priv(int ty, void* a, unsigned n, unsigned f)
{
    switch (ty) {
#define X(nm, t) case T_##nm: privatize_##nm##_tx((const t*)a, f); return;
    TYPES(X)
    X(_Bool, _Bool)
    X(ldouble, long double)
#undef X
    }
    privatize_tx(a, n, f);
}

static const char* FN[] = { "discard", "load", "store", "store" };

static void op(uint64_t* s)
{
    unsigned o, n; uint8_t b[N];
    int k = rg(s) % (wl == 0 ? 8 : 18);
    region(s, &o, &n);
    if (wl == 0 && k == 7) k = 12;
    switch (k) {
    case 0: case 1: case 2: { /* load, maybe of discarded memory */
        int ty = type_of(s, o, &n);
        if ((ty == T__Bool && sh[o] > 1) || (ty == T_ldouble && wl != 0)) ty = T_none;
        if (any(dc, o, n)) { if (rg(s) & 7) break; tr("{\"e\":\"oob\",\"o\":%u,\"n\":%u}", o, n); }
        memset(b, 99, n);
        typed_load(ty, mem + o, b, n);
        if (ty == T_ldouble) n = 10; /* the rest is padding */
        tr("{\"e\":\"ld\",\"o\":%u,\"b\":%s}", o, tr_bytes(b, n));
        break; }
    case 3: case 4: case 5: {
        int ty = type_of(s, o, &n);
        if (ty == T_ldouble && wl != 0) ty = T_none;
        fresh(s, b, n);
        if (ty == T__Bool) b[0] &= 1;
        if (any(dc, o, n)) { if (rg(s) & 7) break; tr("{\"e\":\"oob\",\"o\":%u,\"n\":%u}", o, n); }
        typed_store(ty, mem + o, b, n);
        if (ty == T_ldouble) load_tx(mem + o + 10, b + 10, 6); /* padding: whatever it is */
        memcpy(sh + o, b, n);
        tr("{\"e\":\"st\",\"o\":%u,\"b\":%s}", o, tr_bytes(b, n));
        break; }
    case 6: { /* load and store */
        unsigned d;
        if (n > TOP / 2) n = TOP / 2;
        for (int i = 0;; ++i) { o = rg(s) % (TOP - n + 1); d = rg(s) % (TOP - n + 1); if (o + n <= d || d + n <= o) break; if (i > 20 && n > 1) --n; }
        if (any(dc, o, n) || any(dc, d, n)) break;
        loadstore_tx(mem + o, mem + d, n);
        memcpy(sh + d, sh + o, n);
        tr("{\"e\":\"ldst\",\"o\":%u,\"d\":%u,\"n\":%u}", o, d, n);
        break; }
    case 7: case 8: { /* privatize region */
        int f = rg(s) & 3, ty = type_of(s, o, &n);
        if (any(dc, o, n)) { if (rg(s) & 7) break; tr("{\"e\":\"oob\",\"o\":%u,\"n\":%u}", o, n); }
        typed_priv(ty, mem + o, n, f);
        if (!f) memset(dc + o, 1, n); else memset(pl + o, 1, n);
        if (f & 2) memset(ps + o, 1, n);
        tr("{\"e\":\"priv\",\"o\":%u,\"n\":%u,\"f\":\"%s\"}", o, n, FN[f]);
        break; }
    case 9: case 10: { /* privatize string */
        int f = rg(s) % 8 ? 1 + rg(s) % 3 : 0, c = ABC[rg(s) & 3];
        for (n = 0; sh[o + n] != c; ++n);
        ++n;
        if (anyblk(dc, o, n) || (!f && o + n > TOP)) break;
        tr("{\"e\":\"privc\",\"o\":%u,\"c\":%d,\"f\":\"%s\"}", o, c, FN[f]);
        privatize_c_tx(mem + o, rg(s) & 1 ? c : (int)(signed char)c, f);
        if (!f) memset(dc + o, 1, n); else memset(pl + o, 1, n);
        if (f & 2) memset(ps + o, 1, n);
        break; }
    case 11: case 12: case 13: /* direct access */
        for (int i = 0; i < 12; ++i) {
            if (i == 6) n = 1 + n % 3;
            if (i) o = rg(s) % (TOP - n + 1);
            if (any(dc, o, n) || !all(pl, o, n)) continue;
            if (!all(ps, o, n) || (rg(s) & 1)) { memcpy(b, mem + o, n); tr("{\"e\":\"rd\",\"o\":%u,\"b\":%s}", o, tr_bytes(b, n)); }
            else { fresh(s, b, n); memcpy(mem + o, b, n); memcpy(sh + o, b, n); tr("{\"e\":\"wr\",\"o\":%u,\"b\":%s}", o, tr_bytes(b, n)); }
            break;
        }
        break;
    case 16: case 17: /* discarded memory gets a new owner */
        for (o = 0; o < TOP && !(dc[o] && (rg(s) & 1)); ++o);
        if (o == TOP) break;
        for (n = 1; o + n < TOP && dc[o + n]; ++n);
        fresh(s, b, n); memcpy(mem + o, b, n); memcpy(sh + o, b, n);
        tr("{\"e\":\"reuse\",\"o\":%u,\"b\":%s}", o, tr_bytes(b, n));
        break;
    case 14: if (n > 8) n = 1 + n % 3; ask(1, o, n, NULL); break;
    case 15: /* peer store on memory that is privatized */
        for (int i = 0; i < 12; ++i) {
            n = 1; o = rg(s) % TOP;
            if (pl[o] || dc[o]) { fresh(s, b, n); ask(2, o, n, b); break; }
        }
        break;
    }
}

static volatile int v_open, v_conf, v_rec;
static void settle(void)
{
    tr("{\"e\":\"mem\",\"mem\":%s}", tr_bytes(mem, N));
    memcpy(sh, mem, N);
    memset(pl, 0, N); memset(ps, 0, N); memset(dc, 0, N);
}
static void probe(uint64_t* s, int k)
{
    if (wl == 0) return;
    while (k--) {
        uint8_t b[N]; unsigned o, n; region(s, &o, &n);
        if (rg(s) & 1) ask(1, o, n, NULL); else { fresh(s, b, n); ask(2, o, n, b); }
    }
}
static void one_tx(uint64_t seed)
{
    uint64_t s0 = seed;
    const int nconf = rg(&s0) % (wl == 1 ? 2 : 4) ? 0 : 1 + rg(&s0) % 2;
    const int werr = rg(&s0) % (wl == 1 ? 3 : 12) == 0;
    v_conf = v_rec = v_open = 0;
    picotm_begin
        if (v_open) { tr("{\"e\":\"strange restart\"}"); }
        if (v_conf) { uint64_t s = mix(seed, 77 + v_conf); settle(); probe(&s, rg(&s) % 3); }
        v_open = 1;
        tr("{\"e\":\"begin\"}");
        uint64_t s = mix(seed, 1 + v_conf + 10 * v_rec);
        int nops = 1 + rg(&s) % 9;
        for (int i = 0; i < nops; ++i) op(&s);
        if (v_conf < nconf) {
            v_conf = v_conf + 1;
            tr("{\"e\":\"abort\"}"); v_open = 0;
            if (rg(&s) & 1) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_error_set_conflicting(&e, NULL); picotm_recover_from_error(&e); }
            picotm_resolve_conflict(NULL);
        }
        if (werr && !v_rec) {
            tr("{\"e\":\"abort\"}"); v_open = 0;
            picotm_recover_from_errno(5);
        }
        tr("{\"e\":\"commit\"}");
    picotm_commit
        v_open = 0; v_rec = v_rec + 1;
        uint64_t s = mix(seed, 177 + v_rec);
        settle(); probe(&s, rg(&s) % 3);
        if (rg(&s) & 1 && v_rec < 3) { v_conf = 0; picotm_restart(); }
    picotm_end
    if (v_open) settle();
    uint64_t s = mix(seed, 277);
    probe(&s, rg(&s) % 3);
}
static void main_actor(void)
{
    uint64_t s = seed0;
    int ntx = 1 + rg(&s) % 4;
    for (int i = 0; i < ntx; ++i) one_tx(mix(seed0, 100 + i));
    p_quit = 1;
    picotm_release();
}
static void thread_main(int t) { if (t == 0) main_actor(); else peer(); }
static void on_hang(void) { tr("{\"e\":\"hang\"}"); tr_flush(); _exit(98); }

int main(int argc, char** argv)
{
    wl = !strcmp(argv[1], "seq") ? 0 : !strcmp(argv[1], "undo") ? 1 : 2;
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    vs_on_hang = on_hang;
    for (int i = first; i < first + n; ++i) {
        seed0 = mix(seed, i * 3 + wl);
        uint64_t s = seed0;
        mem = room + 64;
        fresh(&s, mem, N);
        memcpy(mem + TOP, ABC, 4);
        for (int j = N; j < N + 64; ++j) mem[j] = ABC[j & 3];
        memcpy(sh, mem, N); memset(pl, 0, N); memset(ps, 0, N); memset(dc, 0, N);
        tr("{\"e\":\"reset\",\"run\":%d,\"mem\":%s}", i, tr_bytes(mem, N));
        p_cmd = p_quit = 0;
        struct vs_cfg c = { .seed = seed0, .budget = 1000000, .tick_ns = 1000 };
        vs_run(&c, 2, thread_main);
    }
    tr_flush();
    return 0;
}
