/* Run-time for picotm objects that were compiled with -fsanitize=thread: every access calls into
 * this file, which may switch to another thread. Exactly one thread runs at any time. Memory is
 * sequentially consistent; clock, mutexes, rwlocks and condition variables are modelled. */
#define _GNU_SOURCE
#include "vsched.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 40
static struct vs_cfg C;
static int N;
static __thread int self = -1;
static int current = -1;
static volatile int sem[MAXT];
static bool alive[MAXT];
static int prio[MAXT];
static unsigned chg[64];
static int nlive, lowprio;
static uint64_t rng;
static long vclock;
unsigned long vs_steps, vs_switches;
static unsigned long forced, alone;
void (*vs_on_hang)(void);

static uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 2685821657736338717ull;
}
uint64_t vs_rand(void) { return rnd() >> 11; }
static unsigned pick(unsigned n) { return (unsigned)((rnd() >> 33) % n); }

static void post(int t)
{
    __atomic_store_n(&sem[t], 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &sem[t], FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}
static void wait_sem(int t)
{
    while (!__atomic_exchange_n(&sem[t], 0, __ATOMIC_SEQ_CST)) {
        syscall(SYS_futex, &sem[t], FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    }
}
static void switch_to(int t)
{
    if (t == self) return;
    ++vs_switches;
    alone = 0;
    current = t;
    int me = self;
    post(t);
    wait_sem(me);
}
static int other(void)
{
    /* uniformly among the other live threads */
    int c[MAXT], n = 0;
    for (int i = 0; i < N; ++i) if (alive[i] && i != self) c[n++] = i;
    return n ? c[pick(n)] : self;
}
static int best(void)
{
    int b = -1;
    for (int i = 0; i < N; ++i) if (alive[i] && (b < 0 || prio[i] > prio[b])) b = i;
    return b;
}
static void point(unsigned p)
{
    if (self < 0) return;
    ++vs_steps;
    if (nlive < 2) return;
    if (++alone > 200000) { vs_force(); return; }
    if (C.mode == 0) {
        if (p && !(rnd() % p)) switch_to(other());
    } else if (C.mode == 1) {
        for (unsigned i = 0; i < C.depth; ++i) if (chg[i] == vs_steps) prio[self] = --lowprio;
        int b = best();
        if (b != self) switch_to(b);
    }
}
void vs_force(void)
{
    if (self < 0) { sched_yield(); return; }
    ++vs_steps;
    if (++forced > C.budget) { if (vs_on_hang) vs_on_hang(); _exit(99); }
    if (C.mode == 1) { prio[self] = --lowprio; switch_to(best()); }
    else switch_to(other());
}
void vs_yield(void) { point(C.p_sync); }
int vs_self(void) { return self; }
void vs_sleep(long ns) { vclock += ns; }

struct arg { int t; void (*fn)(int); };
static void* tmain(void* a)
{
    struct arg* x = a;
    self = x->t;
    wait_sem(self);
    x->fn(self);
    alive[self] = false;
    --nlive;
    if (nlive) {
        int t = C.mode == 1 ? best() : other();
        current = t;
        post(t);
    }
    self = -1;
    return NULL;
}
void vs_config(const struct vs_cfg* cfg) { C = *cfg; }
void vs_run(const struct vs_cfg* cfg, int n, void (*fn)(int))
{
    if (cfg) vs_config(cfg);
    N = nlive = n;
    rng = C.seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng) rng = 1;
    for (int i = 0; i < 8; ++i) rnd();
    vs_steps = vs_switches = forced = 0;
    lowprio = 0;
    if (!C.budget) C.budget = 200000;
    pthread_t th[MAXT]; struct arg a[MAXT];
    for (int i = 0; i < n; ++i) { alive[i] = true; prio[i] = i + 1; sem[i] = 0; }
    for (int i = n - 1; i > 0; --i) { int j = pick(i + 1); int t = prio[i]; prio[i] = prio[j]; prio[j] = t; }
    for (unsigned i = 0; i < C.depth && i < 64; ++i) chg[i] = 1 + pick(C.len ? C.len : 1);
    for (int i = 0; i < n; ++i) {
        a[i].t = i; a[i].fn = fn;
        pthread_create(&th[i], NULL, tmain, &a[i]);
    }
    int first = C.mode == 1 ? best() : (int)pick(n);
    current = first;
    post(first);
    for (int i = 0; i < n; ++i) pthread_join(th[i], NULL);
}

/* ---- modelled blocking primitives (linked with --wrap) ---- */
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (self < 0) return __real_pthread_mutex_lock(m);
    point(C.p_sync);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) vs_force();
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    point(C.p_sync);
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (self < 0) return __real_pthread_rwlock_rdlock(l);
    point(C.p_sync);
    int r;
    while ((r = pthread_rwlock_tryrdlock(l)) == EBUSY) vs_force();
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (self < 0) return __real_pthread_rwlock_wrlock(l);
    point(C.p_sync);
    int r;
    while ((r = pthread_rwlock_trywrlock(l)) == EBUSY) vs_force();
    return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    int r = __real_pthread_rwlock_unlock(l);
    point(C.p_sync);
    return r;
}
struct cvs { pthread_cond_t* c; unsigned long signals; };
static struct cvs cv[256];
static struct cvs* getcv(pthread_cond_t* c)
{
    for (int i = 0; i < 256; ++i) {
        if (cv[i].c == c) return &cv[i];
        if (!cv[i].c) { cv[i].c = c; return &cv[i]; }
    }
    return &cv[0];
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int timed)
{
    struct cvs* v = getcv(c);
    unsigned long s = v->signals;
    __real_pthread_mutex_unlock(m);
    int res = 0;
    while (v->signals == s) {
        if (timed && !(rnd() & 7)) { res = ETIMEDOUT; break; }
        vs_force();
        if (timed && nlive < 2) { res = ETIMEDOUT; break; }
    }
    __wrap_pthread_mutex_lock(m);
    return res;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return self < 0 ? __real_pthread_cond_wait(c, m) : cond_wait(c, m, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    return self < 0 ? __real_pthread_cond_timedwait(c, m, t) : cond_wait(c, m, 1);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (self < 0) return __real_pthread_cond_signal(c);
    getcv(c)->signals++;
    point(C.p_sync);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (self < 0) return __real_pthread_cond_broadcast(c);
    getcv(c)->signals++;
    point(C.p_sync);
    return 0;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* t)
{
    if (self < 0) return __real_clock_gettime(id, t);
    vclock += C.tick_ns;
    t->tv_sec = 1000 + vclock / 1000000000l;
    t->tv_nsec = vclock % 1000000000l;
    return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    vclock += a->tv_sec * 1000000000l + a->tv_nsec;
    if (self >= 0) vs_force();
    return 0;
}
int __wrap_sched_yield(void) { if (self >= 0) vs_force(); return 0; }

/* ---- instrumentation entry points ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
#define MEM(n) \
    void __tsan_read##n(void* a) { point(C.p_mem); } \
    void __tsan_write##n(void* a) { point(C.p_mem); } \
    void __tsan_unaligned_read##n(void* a) { point(C.p_mem); } \
    void __tsan_unaligned_write##n(void* a) { point(C.p_mem); } \
    void __tsan_volatile_read##n(void* a) { point(C.p_mem); } \
    void __tsan_volatile_write##n(void* a) { point(C.p_mem); } \
    void __tsan_unaligned_volatile_read##n(void* a) { point(C.p_mem); } \
    void __tsan_unaligned_volatile_write##n(void* a) { point(C.p_mem); } \
    void __tsan_read_write##n(void* a) { point(C.p_mem); } \
    void __tsan_unaligned_read_write##n(void* a) { point(C.p_mem); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
void __tsan_read_range(void* a, unsigned long n) { point(C.p_mem); }
void __tsan_write_range(void* a, unsigned long n) { point(C.p_mem); }
void __tsan_vptr_update(void** a, void* b) {}
void __tsan_vptr_read(void** a) {}
void __tsan_atomic_thread_fence(int mo) { point(C.p_sync); }
void __tsan_atomic_signal_fence(int mo) {}

#define SC __ATOMIC_SEQ_CST
/* a compare-and-exchange that fails twice in a row on the same object is a spinning lock */
static __thread const volatile void* cas_addr; static __thread unsigned cas_fail;
static int cas_res(const volatile void* a, int ok)
{
    if (ok) cas_addr = NULL;
    else if (cas_addr == a) { if (++cas_fail >= 2) { cas_fail = 0; vs_force(); } }
    else { cas_addr = a; cas_fail = 1; }
    return ok;
}
/* an exchange that finds the value already there is a spinning lock: let others run */
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int mo) { point(C.p_sync); return __atomic_load_n(a, SC); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { point(C.p_sync); __atomic_store_n(a, v, SC); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { \
        point(C.p_sync); T o = __atomic_exchange_n(a, v, SC); if (o == v) vs_force(); return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_add(a, v, SC); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_sub(a, v, SC); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_and(a, v, SC); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_or(a, v, SC); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_xor(a, v, SC); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { point(C.p_sync); return __atomic_fetch_nand(a, v, SC); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { \
        point(C.p_sync); return cas_res(a, __atomic_compare_exchange_n(a, c, v, 0, SC, SC)); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { \
        point(C.p_sync); return cas_res(a, __atomic_compare_exchange_n(a, c, v, 0, SC, SC)); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) { \
        point(C.p_sync); cas_res(a, __atomic_compare_exchange_n(a, &c, v, 0, SC, SC)); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
