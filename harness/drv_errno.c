// FLAVOUR: plain
/* errno in transactions. usage: drv_errno errno SEED FIRST N OUT  (runs in a scratch directory of its own) */
#include "txshell.h"
#include "picotm/errno.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/stdlib.h"
#include "picotm/string.h"
#include "picotm/stdio.h"
#include "picotm/locale.h"
#include "picotm/sched.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/socket.h"
#include "picotm/picotm-libc.h"
#include "picotm/math.h"
#include "picotm/math-tm.h"
#include "picotm/picotm-tm.h"
#include <ftw.h>
#include <sys/socket.h>

static int touched, full;
static int sink;
static void call(int op, uint64_t* s)
{
    static char buf[64]; static struct stat st; static int fds[2]; int fd;
    static struct sockaddr sa;
    switch (op) {
    case 0: errno_tx = 1 + rg(s) % 100; break;
    case 1: picotm_libc_save_errno(); errno = 1 + rg(s) % 100; break;
    case 2: open_tx("nonexistent", O_RDONLY); break;
    case 3: fd = open_tx("file", O_RDWR); write_tx(fd, "abc", 3); close_tx(fd); break;
    case 4: close_tx(-1); break;
    case 5: read_tx(199, buf, 4); break;
    case 6: write_tx(199, buf, 4); break;
    case 7: lseek_tx(199, 0, SEEK_SET); break;
    case 8: chdir_tx("nonexistent"); break;
    case 9: getcwd_tx(buf, 2); break;
    case 10: stat_tx("nonexistent", &st); break;
    case 11: mkdir_tx("dir", 0700); break;
    case 12: unlink_tx("nonexistent"); break;
    case 13: link_tx("nonexistent", "other"); break;
    case 14: sink ^= (malloc_tx((1ul << 63) + 1) != 0); break;
    case 15: sink ^= (calloc_tx(1ul << 62, 8) != 0); break;
    case 16: sink ^= (setlocale_tx(LC_ALL, "xx_YY.nonexistent") != 0); break;
    case 17: sink ^= (newlocale_tx(LC_ALL_MASK, "xx_YY.nonexistent", (locale_t)0) != 0); break;
    case 18: fd = open_tx("file", O_RDONLY); fcntl_tx(fd, 9999, 0); close_tx(fd); break;
    case 19: strerror_r_tx(7777, buf, sizeof buf); break;
    case 20: sink ^= (log_tx(-1.0) > 0); break;
    case 21: fchdir_tx(199); break;
    case 22: fsync_tx(199); break;
    case 23: dup_tx(199); break;
    case 24: dup2_tx(199, 198); break;
    case 25: socket_tx(9999, SOCK_STREAM, 0); break;
    case 26: bind_tx(199, &sa, sizeof sa); break;
    case 27: connect_tx(199, &sa, sizeof sa); break;
    case 28: listen_tx(199, 1); break;
    case 29: shutdown_tx(199, SHUT_RD); break;
    case 30: strcpy(buf, "bad"); mkdtemp_tx(buf); break;
    case 31: strcpy(buf, "bad"); mkstemp_tx(buf); break;
    case 32: chmod_tx("nonexistent", 0600); break;
    case 33: sched_yield_tx(); break;
    case 34: free_tx(malloc_tx(10)); break;
    case 35: fchmod_tx(199, 0600); break;
    case 36: fstat_tx(199, &st); break;
    case 37: lstat_tx("nonexistent", &st); break;
    case 38: mkfifo_tx("dir", 0600); break;
    case 39: sink ^= (exp_tx(1e6) > 0); break;
    case 40: snprintf_tx(buf, sizeof buf, "%d", 5); break;
    case 41: fd = open_tx("dir", O_RDONLY); read_tx(fd, buf, 5); break;
    case 42: pread_tx(199, buf, 4, 0); break;
    case 43: pwrite_tx(199, buf, 4, 0); break;
    case 44: accept_tx(199, NULL, NULL); break;
    case 45: send_tx(199, buf, 4, 0); break;
    case 46: recv_tx(199, buf, 4, 0); break;
    case 47: mknod_tx("dir", S_IFIFO | 0600, 0); break;
    case 48: mkfifo_tx("nonexistent/x", 0600); break;
    case 49: pipe_tx(fds); close_tx(fds[0]); close_tx(fds[1]); break;
    case 50: fd = open_tx("nonexistent/file", O_CREAT | O_RDWR, 0600); break;
    case 51: chdir_tx("dir"); chdir_tx(".."); break;
    case 52: sink ^= (sqrt_tx(4) > 0); break;
    case 53: creat_tx("dir", 0600); break;
    case 54: posix_memalign_tx((void**)fds, 3, 10); break;
    default: { char* d = strdup_tx("hello"); free_tx(d); }
    }
}
static void sh_op(uint64_t* s, int i)
{
    if (i == 0 && rg(s) % 3 == 0) { int v = 1 + rg(s) % 100; errno = v; tr("{\"e\":\"raw\",\"v\":%d}", v); }
    int op = rg(s) % 3 ? rg(s) % 56 : (int[]){ 0, 1, 3, 33, 34, 40, 49, 51, 52, 55 }[rg(s) % 10];
    tr("{\"e\":\"call\",\"op\":%d}", op);
    call(op, s);
    tr("{\"e\":\"ret\",\"v\":%d}", errno);
}
static void sh_look(void) { tr("{\"e\":\"look\",\"v\":%d}", errno); }
static int rmcb(const char* p, const struct stat* s, int t, struct FTW* f) { return remove(p); }
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    char dir[] = "/tmp/verif-errno-XXXXXX", old[4096];
    if (!getcwd(old, sizeof old) || !mkdtemp(dir) || chdir(dir)) return 3;
    mkdir("dir", 0700); close(open("file", O_CREAT | O_RDWR, 0600));
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        picotm_libc_set_error_recovery(rg(&s) & 1 ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO);
        int ntx = 1 + rg(&s) % 4;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), 6); sh.looks = 1;
            if (rg(&s) & 1 || !k) { errno = rg(&s) % 100; }
            tr("{\"e\":\"set\",\"v\":%d}", errno);
            sh_run();
            sh_look();
        }
        if (chdir(dir)) return 3;
        for (int fd = 3; fd < 64; ++fd) close(fd); /* descriptors of committed opens */
    }
    tr_flush();
    if (chdir(old)) return 3;
    nftw(dir, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    return 0;
}
