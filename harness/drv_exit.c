// FLAVOUR: plain
#define _GNU_SOURCE
/* leaving the process from within a transaction. usage: drv_exit exit SEED FIRST N OUT
 * Every run is a process of its own; memory, a file and a pipe outlive it and are observed by its parent. */
#include "txshell.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/unistd.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-tm.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

enum { NC = 4 };
static struct { long c[NC]; } *sm;                        /* shared with the parent */
static int fd[3], rd;                                     /* fd[1]: a file; fd[2]: a pipe, rd: its other end */
static int leave_at, leave_how, leave_st, privd[NC], nhooks, hook_tx[4];
static uint64_t hseed;
static const char* HOW[] = { "exit", "_exit", "_Exit", "abort" };
static const int STS[] = { 0, 1, 2, 77, 127, 128, 255, 256, 261, -1 };

static const char* cells(void)
{
    static char b[200]; int o = 0;
    for (int i = 0; i < NC; ++i) o += sprintf(b + o, "%s%ld", i ? "," : "[", sm->c[i]);
    strcpy(b + o, "]"); return b;
}
static void access_op(uint64_t* s)
{
    int c = rg(s) % NC; long v = rg(s) % 1000; int k = rg(s) % 8;
    switch (k) {
    case 0: case 1: v = load_long_tx(&sm->c[c]); tr("{\"e\":\"load\",\"c\":%d,\"v\":%ld}", c + 1, v); break;
    case 2: case 3: case 4:
        if (k == 4 || privd[c]) {
            if (!privd[c]) privatize_long_tx(&sm->c[c], PICOTM_TM_PRIVATIZE_LOADSTORE);
            privd[c] = 1; sm->c[c] = v;
        } else store_long_tx(&sm->c[c], v);
        tr("{\"e\":\"store\",\"c\":%d,\"v\":%ld}", c + 1, v); break;
    default: {
        int f = 1 + rg(s) % 2; unsigned char b[4]; int n = 1 + rg(s) % 3;
        for (int i = 0; i < n; ++i) b[i] = rg(s) % 200;
        int r = write_tx(fd[f], b, n);
        tr("{\"e\":\"write\",\"f\":%d,\"b\":%s,\"r\":%d}", f, tr_bytes(b, n), r); break; }
    }
}
static void sh_op(uint64_t* s, int i)
{
    if (i == 0) memset(privd, 0, sizeof privd);
    if (i == leave_at) {
        tr("{\"e\":\"leave\",\"how\":\"%s\",\"st\":%d}", HOW[leave_how], leave_st & 255);
        switch (leave_how) {
        case 0: exit_tx(leave_st); break;
        case 1: _exit_tx(leave_st); break;
        case 2: _Exit_tx(leave_st); break;
        case 3: abort_tx(); break;
        }
        tr("{\"e\":\"still here\"}"); _exit(44);
    }
    access_op(s);
}
static void sh_look(void) { }
static void stop_if_dead(int where) { if (where == 3 && picotm_error_is_non_recoverable()) _exit(45); }
static void hook(int k)
{
    uint64_t s = mix(hseed, 50 + k);
    tr("{\"e\":\"hook\",\"k\":%d,\"mem\":%s}", k, cells());
    if (hook_tx[k]) {
        sh.prepd = 1; /* no more faults */
        picotm_begin
            memset(privd, 0, sizeof privd);
            int n = rg(&s) % 4;
            for (int i = 0; i < n; ++i) access_op(&s);
        picotm_commit
            _exit(46);
        picotm_end
        tr("{\"e\":\"end\"}");
    }
    if (rg(&s) % 4 == 0) { picotm_release(); sh_register(); }
    tr("{\"e\":\"hookend\"}");
}
static void hook1(void) { hook(1); }
static void hook2(void) { hook(2); }
static void hook3(void) { hook(3); }

static void run(uint64_t seed)
{
    static void (*const H[])(void) = { NULL, hook1, hook2, hook3 };
    uint64_t s = mix(seed, 9);
    signal(SIGABRT, SIG_DFL);
    setrlimit(RLIMIT_CORE, &(struct rlimit){ 0, 0 });
    nhooks = rg(&s) % 4; hseed = seed;
    for (int i = 1; i <= nhooks; ++i) { hook_tx[i] = rg(&s) & 1; atexit(H[i]); tr("{\"e\":\"atexit\",\"k\":%d}", i); }
    sh_hook = stop_if_dead;
    int ntx = 1 + rg(&s) % 3, last = rg(&s) % 6 != 0, warm = rg(&s) & 1;
    for (int t = 0; t < ntx; ++t) {
        sh_plan(mix(seed, 100 + t), 8);
        if (rg(&s) % 4 == 0) { sh.prep = 1 + rg(&s) % 3; }
        leave_at = t == ntx - 1 && last ? (int)(rg(&s) % sh.nops) : -1;
        leave_how = rg(&s) % 4; leave_st = STS[rg(&s) % 10];
        if (t && warm) picotm_release();
        if (!t || warm) sh_register();
        sh_run();
    }
    int st = rg(&s) % 200;
    tr("{\"e\":\"bye\",\"st\":%d}", st);
    exit(st);
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    crash_install();
    tr_open(argv[5]);
    char* shared = mmap(NULL, 2 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    free(tr_buf); tr_buf = shared; tr_cap = 1 << 20;
    sm = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = first; i < first + n; ++i) {
        int p2[2]; unsigned char b[4096];
        memset(sm, 0, sizeof *sm);
        fd[1] = memfd_create("f", 0);
        if (fd[1] < 0 || pipe(p2)) { perror("setup"); return 3; }
        rd = p2[0]; fd[2] = p2[1];
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        size_t before = tr_len;
        pid_t p = fork();
        if (!p) { close(rd); tr_cap = ~0ul >> 1; alarm(40); run(mix(seed, i)); _exit(0); }
        close(fd[2]);
        int st; waitpid(p, &st, 0);
        tr_len += strlen(tr_buf + before);
        if (WIFEXITED(st)) tr("{\"e\":\"gone\",\"how\":\"exited\",\"st\":%d}", WEXITSTATUS(st));
        else tr("{\"e\":\"gone\",\"how\":\"killed\",\"st\":%d}", WTERMSIG(st));
        tr("{\"e\":\"mem\",\"mem\":%s}", cells());
        int r = pread(fd[1], b, sizeof b, 0);
        tr("{\"e\":\"file\",\"f\":1,\"b\":%s}", tr_bytes(b, r < 0 ? 0 : r));
        fcntl(rd, F_SETFL, O_NONBLOCK);
        r = read(rd, b, sizeof b);
        tr("{\"e\":\"file\",\"f\":2,\"b\":%s}", tr_bytes(b, r < 0 ? 0 : r));
        close(rd); close(fd[1]);
        size_t len = tr_len;
        if (len > 1 << 18) { tr_flush(); memset(tr_buf, 0, len); }
    }
    tr_flush();
    return 0;
}
