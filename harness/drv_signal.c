// FLAVOUR: plain
#define _GNU_SOURCE
/* signals in and outside of transactions. usage: drv_signal sig SEED FIRST N OUT
 * Every run is a process of its own. Thread 1 executes the shell of txshell.h; thread 2 executes what thread 1 asks
 * it for. The driver keeps its own view of what is acquired and enabled only to stay clear of signals that would
 * terminate the process, or repeat for ever, by design. */
#include "txshell.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-tm.h"
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>

enum { NSG = 9, PG = 4096 };
static const int SIGS[NSG] = { SIGILL, SIGTRAP, SIGBUS, SIGFPE, SIGSEGV, SIGUSR1, SIGUSR2, SIGSYS, 36 };
enum { K_KILL, K_QUEUE, K_SEGV, K_BUS, K_FPE, K_ILL, K_TRAP, K_REMOTE, K_LOAD };
static int gt[9];                                       /* si_code of each kind, learnt without the library */
static volatile int learned;
static int acq[65], nontx[65], apph[65], en[3][65]; /* the driver's own view */
static unsigned char *page, *bus; static int busfd;
static unsigned long cell[4][2];
static __thread volatile int kind, nest, me, intx;
static volatile int arrived;

static int blocked(void)
{
    sigset_t m; sigprocmask(SIG_SETMASK, NULL, &m);
    int r = sigismember(&m, SIGWINCH);
    for (int i = 1; i < 65; ++i) if (i != SIGWINCH && sigismember(&m, i) == 1) r += 2;
    return r;
}
static int detail(const siginfo_t* i)
{
    if (i->si_code == SI_QUEUE) return i->si_value.sival_int;
    if (i->si_code > 0 && i->si_signo == SIGSEGV) return (unsigned char*)i->si_addr - page;
    if (i->si_code > 0 && i->si_signo == SIGBUS) return (unsigned char*)i->si_addr - bus;
    return 0;
}
static void do_raise(int sig, int k, uint64_t* s);
static void fix(ucontext_t* uc)
{
    switch (kind) {
    case K_SEGV: case K_LOAD: mprotect(page, PG, PROT_READ | PROT_WRITE); break;
    case K_BUS: mmap(bus, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); break;
    case K_FPE: case K_ILL: uc->uc_mcontext.gregs[REG_RIP] += 2; break;
    }
    kind = K_KILL;
}
static void handle(int h, int sig, siginfo_t* i, void* uc)
{
    tr("{\"e\":\"handler\",\"t\":%d,\"h\":%d,\"sig\":%d,\"no\":%d,\"code\":%d,\"det\":%d}", me, h, sig, i->si_signo, i->si_code, detail(i));
    fix(uc);
    if (nest) {
        int n = nest; uint64_t s = 1; nest = 0;
        do_raise(n, K_KILL, &s);
    }
    tr("{\"e\":\"hret\",\"t\":%d}", me);
    arrived = 1;
}
static void h1(int sig, siginfo_t* i, void* u) { handle(1, sig, i, u); }
static void h2(int sig, siginfo_t* i, void* u) { handle(2, sig, i, u); }
static void a1(int sig, siginfo_t* i, void* u) { handle(11, sig, i, u); }
static void a2(int sig, siginfo_t* i, void* u) { handle(12, sig, i, u); }
static void learn(int sig, siginfo_t* i, void* u) { learned = i->si_code; fix(u); }

static void cause(int sig, int k, int det)
{
    kind = k;
    switch (k) {
    case K_KILL: pthread_kill(pthread_self(), sig); break;
    case K_QUEUE: pthread_sigqueue(pthread_self(), sig, (union sigval){ .sival_int = det }); break;
    case K_SEGV: { unsigned char x; __asm__ volatile("movb (%1), %0" : "=r"(x) : "r"(page + det) : "memory"); } break;
    case K_BUS: { unsigned char x; __asm__ volatile("movb (%1), %0" : "=r"(x) : "r"(bus + det) : "memory"); } break;
    case K_FPE: { int a = 7, d = 0; __asm__ volatile("idivl %2" : "+a"(a), "+d"(d) : "c"(0) : "memory"); } break;
    case K_ILL: __asm__ volatile("ud2" ::: "memory"); break;
    case K_TRAP: __asm__ volatile("int3" ::: "memory"); break;
    case K_LOAD: { volatile unsigned long v; unsigned long w; load_tx(page + det, &w, sizeof w); v = w; (void)v; } break;
    }
    if (k == K_SEGV || k == K_LOAD) mprotect(page, PG, PROT_NONE);
    if (k == K_BUS) mmap(bus, PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, busfd, 0);
    kind = K_KILL;
}
/* ------------------------------ thread 2 ------------------------------- */
static volatile int cmd; static uint64_t cmd_s; static pthread_t th[3]; static int cmd_sig;
enum { C_NONE, C_RAISE, C_TX, C_ADD, C_REMOVE, C_CLEAR, C_RELEASE, C_KILL1 };
static int usable(int sig)  /* the signal neither kills nor repeats for ever */
{
    if (acq[sig]) return nontx[sig] || (intx && en[me][sig]) ? 1 : 2; /* 2: ignored */
    return apph[sig] != 0;
}
static void add(int sig, int r)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_libc_add_signal(sig, r, &e);
    tr("{\"e\":\"add\",\"t\":%d,\"sig\":%d,\"r\":%d,\"st\":%d,\"v\":%d}", me, sig, r, e.status, picotm_error_is_set(&e) ? e.value.errno_hint : 0);
    if (sig >= 0 && sig < 65) en[me][sig] = r ? 1 : 2;
}
static void removesig(int sig)
{
    picotm_libc_remove_signal(sig);
    tr("{\"e\":\"remove\",\"t\":%d,\"sig\":%d}", me, sig);
    if (sig >= 0 && sig < 65) en[me][sig] = 0;
}
static void clearall(void)
{
    picotm_libc_clear_signals();
    tr("{\"e\":\"clear\",\"t\":%d}", me);
    memset(en[me], 0, sizeof en[me]);
}
static int kind_of(int sig, uint64_t* s)
{
    int f = sig == SIGSEGV ? K_SEGV : sig == SIGBUS ? K_BUS : sig == SIGFPE ? K_FPE : sig == SIGILL ? K_ILL : sig == SIGTRAP ? K_TRAP : K_KILL;
    if (f != K_KILL && usable(sig) == 2) f = K_KILL; /* an ignored fault repeats */
    return rg(s) % 3 ? f : rg(s) % 2;
}
static void do_raise(int sig, int k, uint64_t* s)
{
    if (!usable(sig)) return;
    int det = 0;
    if (k == K_QUEUE) det = rg(s) % 1000;
    if (k == K_SEGV || k == K_BUS) det = rg(s) % PG;
    if (k == K_LOAD) det = rg(s) % (PG / 8) * 8;
    tr("{\"e\":\"raise\",\"t\":%d,\"sig\":%d,\"code\":%d,\"det\":%d}", me, sig, gt[k], det);
    if (k == K_REMOTE) {
        arrived = usable(sig) == 2; cmd_sig = sig; cmd = C_KILL1;
        while (!arrived || cmd) sched_yield();
    } else {
        cause(sig, k, det);
    }
    tr("{\"e\":\"raised\",\"t\":%d,\"m\":%d}", me, blocked());
}
static void helper_tx(uint64_t* s)
{
    volatile int again = rg(s) & 1;
    intx = 1;
    picotm_begin
        intx = 1;
        tr("{\"e\":\"begin\",\"t\":2,\"irr\":0}");
        int n = rg(s) % 6;
        for (int i = 0; i < n; ++i) {
            if (rg(s) & 1) { unsigned long v = rg(s) % 100; store_ulong_tx(&cell[3][0], v); tr("{\"e\":\"store\",\"t\":2,\"c\":4,\"v\":%lu}", v); }
            else { int sig = SIGS[rg(s) % NSG]; do_raise(sig, kind_of(sig, s), s); }
        }
        tr("{\"e\":\"commit\",\"t\":2}");
    picotm_commit
        intx = 0;
        int sg = picotm_error_status() == PICOTM_SIGINFO_T;
        const siginfo_t* i = picotm_error_as_siginfo_t();
        tr("{\"e\":\"recover\",\"t\":2,\"st\":%d,\"sig\":%d,\"code\":%d,\"det\":%d,\"nr\":%d}", picotm_error_status(), sg ? i->si_signo : 0, sg ? i->si_code : 0, sg ? detail(i) : 0, picotm_error_is_non_recoverable());
        mprotect(page, PG, PROT_NONE);
        mmap(bus, PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, busfd, 0);
        if (!picotm_error_is_non_recoverable() && again) { again = 0; tr("{\"e\":\"restart\",\"t\":2}"); picotm_restart(); }
    picotm_end
    intx = 0;
    tr("{\"e\":\"end\",\"t\":2}");
    if (picotm_error_status() && picotm_error_is_non_recoverable()) { tr("{\"e\":\"stop\",\"t\":2}"); _exit(0); } /* its locks remain */
}
static void* helper(void* a)
{
    me = 2;
    for (;;) {
        while (!cmd) sched_yield();
        uint64_t s = cmd_s; int sig = SIGS[rg(&s) % NSG];
        switch (cmd) {
        case C_RAISE: do_raise(sig, kind_of(sig, &s), &s); break;
        case C_TX: if (rg(&s) & 1) for (int i = 0; i < 3; ++i) add(SIGS[rg(&s) % NSG], rg(&s) % 8 != 0);
            helper_tx(&s); break;
        case C_ADD: add(sig, rg(&s) % 8 != 0); break;
        case C_REMOVE: removesig(sig); break;
        case C_CLEAR: clearall(); break;
        case C_RELEASE: picotm_release(); tr("{\"e\":\"release\",\"t\":2}"); memset(en[2], 0, sizeof en[2]); break;
        case C_KILL1: pthread_kill(th[1], cmd_sig); break;
        }
        __sync_synchronize(); cmd = C_NONE;
    }
}
static void ask(int c, uint64_t* s)
{
    cmd_s = mix(rg(s), 1); cmd = c;
    while (cmd) sched_yield();
}
/* ------------------------------ thread 1 ------------------------------- */
static int reg; /* thread 1 has called picotm_libc_add_signal(); the first call has to be outside of transactions */
static int recoverable(int sig) { return acq[sig] && en[1][sig] == 1; }
static void raise1(uint64_t* s)
{
    int sig = SIGS[rg(s) % NSG], k = kind_of(sig, s);
    if (intx && picotm_is_irrevocable() && recoverable(sig)) return; /* nothing to roll back to */
    if (rg(s) % 6 == 0) k = K_REMOTE;
    if (k == K_SEGV && intx && rg(s) % 2) k = K_LOAD;
    if (rg(s) % 4 == 0) {
        int n = SIGS[rg(s) % NSG];
        if (n != sig && !(intx && picotm_is_irrevocable() && recoverable(n))) nest = n;
    }
    do_raise(sig, k, s);
    nest = 0;
}
static void recovered(void) /* called in the recovery phase: repair what a fault has left */
{
    while (cmd) sched_yield();
    intx = 0; kind = K_KILL; nest = 0;
    mprotect(page, PG, PROT_NONE);
    mmap(bus, PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, busfd, 0);
}
static void hook(int where)
{
    intx = where < 3;
    if (where == 3) {
        recovered();
        if (picotm_error_status() == PICOTM_SIGINFO_T) {
            const siginfo_t* i = picotm_error_as_siginfo_t();
            tr("{\"e\":\"info\",\"code\":%d,\"det\":%d}", i->si_code, detail(i));
        }
        if (picotm_error_is_non_recoverable()) return;
    }
    uint64_t s = mix(sh.seed, 4711 + where + 10 * sh.tries);
    if (rg(&s) % 6) return;
    int sig = SIGS[rg(&s) % NSG];
    if (recoverable(sig) && (where == 2 || picotm_is_irrevocable())) return; /* not recoverable any more */
    do_raise(sig, kind_of(sig, &s), &s);
}
static void sh_op(uint64_t* s, int i)
{
    intx = 1;
    switch (rg(s) % 12) {
    case 0: case 1: case 2: { int c = rg(s) % 3; unsigned long v = rg(s) % 100; store_ulong_tx(&cell[c][0], v); tr("{\"e\":\"store\",\"c\":%d,\"v\":%lu}", c + 1, v); break; }
    case 3: { int c = rg(s) % 3; unsigned long v = load_ulong_tx(&cell[c][0]); tr("{\"e\":\"load\",\"c\":%d,\"v\":%lu}", c + 1, v); break; }
    case 4: if (!picotm_is_irrevocable()) ask(C_TX, s); break;
    case 5: ask(C_RAISE, s); break;
    case 6: if (!reg) break; if (rg(s) % 3) add(SIGS[rg(s) % NSG], rg(s) % 8 != 0); else if (rg(s) % 4) removesig(SIGS[rg(s) % NSG]); else clearall(); break;
    default: raise1(s);
    }
}
static void sh_look(void)
{
    tr("{\"e\":\"look\",\"c\":[%lu,%lu,%lu,%lu],\"m\":%d}", cell[0][0], cell[1][0], cell[2][0], cell[3][0], blocked());
}
static void appset(int sig, int h)
{
    struct sigaction sa = { .sa_flags = SA_SIGINFO | (h == 12 ? SA_RESTART : 0) };
    sigemptyset(&sa.sa_mask);
    if (h == 11) sigaddset(&sa.sa_mask, SIGWINCH);
    if (h == 11) sa.sa_sigaction = a1; else if (h == 12) sa.sa_sigaction = a2;
    else { sa.sa_flags = 0; sa.sa_handler = SIG_DFL; }
    sigaction(sig, &sa, NULL);
    apph[sig] = h;
    tr("{\"e\":\"appset\",\"sig\":%d,\"h\":%d}", sig, h);
}
static void act(int sig)
{
    struct sigaction sa; sigaction(sig, NULL, &sa);
    int h = sa.sa_flags & SA_SIGINFO ? sa.sa_sigaction == a1 ? 11 : sa.sa_sigaction == a2 ? 12 : -1 : sa.sa_handler == SIG_DFL ? 0 : -2;
    tr("{\"e\":\"act\",\"sig\":%d,\"h\":%d,\"rs\":%d,\"wm\":%d}", sig, h, !!(sa.sa_flags & SA_RESTART), sigismember(&sa.sa_mask, SIGWINCH));
}
static void outside(uint64_t* s)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    static const int odd[] = { -1, 0, SIGKILL, SIGSTOP, 65, 1000 };
    int sig = SIGS[rg(s) % NSG], r = rg(s) % 16;
    if (r < 4) {
        if (rg(s) % 8 == 0) sig = odd[rg(s) % 6];
        int h = rg(s) % 8 ? 1 + rg(s) % 2 : 0;
        if (sig > 0 && sig < 65 && sig != SIGKILL && sig != SIGSTOP && !acq[sig] && rg(s) & 1) appset(sig, 11 + rg(s) % 2);
        picotm_libc_acquire_proc_signal(sig, h == 1 ? h1 : h == 2 ? h2 : NULL, &e);
        tr("{\"e\":\"acquire\",\"sig\":%d,\"h\":%d,\"st\":%d,\"v\":%d}", sig, h, e.status, picotm_error_is_set(&e) ? e.value.errno_hint : 0);
        if (sig > 0 && sig < 65 && sig != SIGKILL && sig != SIGSTOP && !acq[sig]) { acq[sig] = 1; nontx[sig] = h; }
    } else if (r < 5) {
        if (rg(s) % 8 == 0) sig = odd[rg(s) % 6];
        picotm_libc_release_proc_signal(sig, &e);
        tr("{\"e\":\"giveback\",\"sig\":%d,\"st\":%d}", sig, e.status);
        if (sig > 0 && sig < 65) acq[sig] = 0;
        if (sig > 0 && sig < 65 && sig != SIGKILL && sig != SIGSTOP && rg(s) & 1) act(sig);
    } else if (r < 9) {
        if (rg(s) % 8 == 0) sig = odd[(int[]){ 0, 4, 5 }[rg(s) % 3]];
        add(sig, rg(s) % 8 != 0); reg = 1;
    } else if (r < 10) {
        if (rg(s) % 3) removesig(rg(s) % 8 ? sig : odd[rg(s) % 6]); else clearall();
    } else if (r < 11) {
        if (!acq[sig]) appset(sig, (int[]){ 0, 11, 12 }[rg(s) % 3]);
    } else if (r < 12) {
        act(sig);
    } else if (r < 13) {
        if (rg(s) % 3) return;
        picotm_release(); tr("{\"e\":\"release\",\"t\":1}"); reg = 0; memset(en[1], 0, sizeof en[1]);
        sh_register();
    } else if (r < 14) {
        ask(C_RAISE + rg(s) % 6, s);
    } else if (r < 15) {
        sigset_t m; sigemptyset(&m); sigaddset(&m, SIGWINCH);
        int b = rg(s) & 1; sigprocmask(b ? SIG_BLOCK : SIG_UNBLOCK, &m, NULL);
        tr("{\"e\":\"mask\",\"m\":%d}", b);
    } else {
        raise1(s);
    }
}
static void run(uint64_t s)
{
    me = 1; th[1] = pthread_self();
    alarm(20);
    pthread_create(&th[2], NULL, helper, NULL);
    sh_register(); sh_hook = hook;
    int ntx = 1 + rg(&s) % 5;
    for (int k = 0; k < ntx; ++k) {
        int n = (k ? 0 : 4) + rg(&s) % 6;
        while (n--) outside(&s);
        sh_plan(mix(s, k), 8); sh.looks = 1;
        sh_run(); intx = 0;
        if (picotm_error_status() && picotm_error_is_non_recoverable()) { tr("{\"e\":\"stop\"}"); return; }
        sh_look();
    }
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    page = mmap(NULL, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(page, PG, PROT_NONE);
    busfd = memfd_create("bus", MFD_CLOEXEC);
    bus = mmap(NULL, PG, PROT_READ | PROT_WRITE, MAP_SHARED, busfd, 0);
    static const int ksig[] = { SIGUSR1, SIGUSR1, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP };
    for (int k = 0; k <= K_TRAP; ++k) {
        struct sigaction sa = { .sa_sigaction = learn, .sa_flags = SA_SIGINFO }, old;
        sigaction(ksig[k], &sa, &old);
        cause(ksig[k], k, 8); gt[k] = learned;
        sigaction(ksig[k], &old, NULL);
    }
    gt[K_REMOTE] = gt[K_KILL]; gt[K_LOAD] = gt[K_SEGV];
    tr_open(argv[5]);
    char* shared = mmap(NULL, 2 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    free(tr_buf); tr_buf = shared; tr_cap = 1 << 20;
    for (int i = first; i < first + n; ++i) {
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        size_t before = tr_len;
        pid_t p = fork();
        if (!p) { tr_cap = ~0ul >> 1; run(mix(seed, i)); _exit(0); }
        int st; waitpid(p, &st, 0);
        tr_len += strlen(tr_buf + before);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) tr("{\"e\":\"crash\",\"t\":0,\"sig\":%d}", WIFSIGNALED(st) ? WTERMSIG(st) : -1);
        size_t len = tr_len;
        if (len > 1 << 18) { tr_flush(); memset(tr_buf, 0, len); }
    }
    tr_flush();
    return 0;
}
