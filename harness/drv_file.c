// FLAVOUR: plain
/* Regular files and file descriptors. usage: drv_file rw|abort|fd SEED FIRST N OUT  (in a scratch directory) */
#include "txshell.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <dirent.h>
#include <ftw.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>

enum { MAXFD = 48 };
static char root[256];
static int mode;    /* 0: mostly I/O; 1: mostly things to be undone; 2: mostly descriptors */

/* ---- labels of files ---- */
static struct { dev_t dev; ino_t ino; int f; } lab[512]; static int nlab, nextf;
static int label(const struct stat* st)
{
    for (int i = nlab - 1; i >= 0; --i) if (lab[i].ino == st->st_ino && lab[i].dev == st->st_dev) return lab[i].f;
    return -1;
}
static int newlabel(const struct stat* st) { lab[nlab].dev = st->st_dev; lab[nlab].ino = st->st_ino; lab[nlab++].f = ++nextf; return nextf; }
static char kindof(const struct stat* st) { return S_ISDIR(st->st_mode) ? 'd' : S_ISREG(st->st_mode) ? 'f' : S_ISFIFO(st->st_mode) ? 'p' : '?'; }
/* All offsets and sizes are multiples of the run's unit; each unit is filled with one value. */
static int unit;
static long units(long n) { return n < 0 || n % unit == 0 ? n / (n < 0 ? 1 : unit) : 1000000 + n; }
static int unify(const unsigned char* b) { for (int i = 1; i < unit; ++i) if (b[i] != b[0]) return 999; return b[0]; }
enum { MAXUNIT = 5000 };
static unsigned char big[400 * MAXUNIT], wbuf[64 * MAXUNIT], U[64 * MAXUNIT], rbuf[64 * MAXUNIT];
static const char* path(const char* n) { static char b[2][320]; static int k; k ^= 1; snprintf(b[k], 320, "%s/%s", root, n); return b[k]; }

static char* jdata(char* o, const char* p)
{
    int fd = open(p, O_RDONLY | O_CLOEXEC), n = fd < 0 ? 0 : pread(fd, big, 400 * unit, 0);
    close(fd);
    *o++ = '[';
    for (int i = 0; i < n / unit; ++i) o += sprintf(o, i ? ",%d" : "%d", unify(big + i * unit));
    if (n % unit) o += sprintf(o, ",%d", 1000 + n % unit);
    *o++ = ']'; *o = 0;
    return o;
}
static const char* fdstate(int fd, int* f)
{
    static char b[160]; struct stat st;
    fstat(fd, &st);
    int fl = fcntl(fd, F_GETFL), acc = fl & O_ACCMODE;
    *f = label(&st);
    sprintf(b, "{\"fd\":%d,\"f\":%d,\"off\":%ld,\"acc\":\"%s\",\"app\":%d,\"ce\":%d}", fd, *f, S_ISREG(st.st_mode) ? units(lseek(fd, 0, SEEK_CUR)) : 0L,
            acc == O_RDWR ? "rw" : acc == O_WRONLY ? "w" : "r", !!(fl & O_APPEND), !!(fcntl(fd, F_GETFD) & FD_CLOEXEC));
    return b;
}
static void look_as(const char* e, int run)
{
    static char out[8000]; char* o = out; int seen[64], ns = 0, first; char fbuf[6000], *fo = fbuf;
    char nm[32][16]; int nn = 0;
    DIR* d = opendir(root); struct dirent* de;
    while ((de = readdir(d)) && nn < 32) if (de->d_name[0] != '.') snprintf(nm[nn++], 16, "%s", de->d_name);
    closedir(d);
    o += sprintf(o, "{\"e\":\"%s\",\"run\":%d,\"names\":[", e, run);
    first = 1;
    for (int i = 0; i < nn; ++i) {
        struct stat st; lstat(path(nm[i]), &st);
        int f = label(&st);
        o += sprintf(o, "%s{\"n\":\"%s\",\"f\":%d}", i ? "," : "", nm[i], f);
        int k = 0; while (k < ns && seen[k] != f) ++k;
        if (k == ns) {
            seen[ns++] = f;
            fo += sprintf(fo, "%s{\"f\":%d,\"k\":\"%c\",\"m\":%d,\"d\":", first ? "" : ",", f, kindof(&st), st.st_mode & 07777);
            if (!S_ISREG(st.st_mode)) fo += sprintf(fo, "[]"); else fo = jdata(fo, path(nm[i]));
            *fo++ = '}'; first = 0;
        }
    }
    o += sprintf(o, "],\"fds\":[");
    int nf = 0;
    for (int fd = 3; fd < MAXFD + 40; ++fd) {
        if (fcntl(fd, F_GETFD) < 0) continue;
        int f; const char* s = fdstate(fd, &f);
        o += sprintf(o, "%s%s", nf++ ? "," : "", s);
        int k = 0; while (k < ns && seen[k] != f) ++k;
        if (k == ns) {
            struct stat st; char p[64]; fstat(fd, &st); sprintf(p, "/proc/self/fd/%d", fd);
            seen[ns++] = f;
            fo += sprintf(fo, "%s{\"f\":%d,\"k\":\"%c\",\"m\":%d,\"d\":", first ? "" : ",", f, kindof(&st), st.st_mode & 07777);
            if (!S_ISREG(st.st_mode)) fo += sprintf(fo, "[]"); else fo = jdata(fo, p);
            *fo++ = '}'; first = 0;
        }
    }
    *fo = 0;
    o += sprintf(o, "],\"files\":[%s]}", fbuf);
    tr("%s", out);
}
static void sh_look(void) { look_as("look", 0); }

/* ---- another process, which holds and probes record locks ---- */
static int prober = -1, prober_holds;
struct preq { int cmd, type, start, len; };      /* 0: release; 1: lock; 2: probe */
static void send_fd(int sk, const struct preq* r, int fd)
{
    struct iovec v = { (void*)r, sizeof *r }; union { struct cmsghdr h; char b[CMSG_SPACE(sizeof(int))]; } c; memset(&c, 0, sizeof c);
    struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
    if (fd >= 0) {
        m.msg_control = &c; m.msg_controllen = sizeof c;
        c.h.cmsg_level = SOL_SOCKET; c.h.cmsg_type = SCM_RIGHTS; c.h.cmsg_len = CMSG_LEN(sizeof fd);
        memcpy(CMSG_DATA(&c.h), &fd, sizeof fd);
    }
    if (sendmsg(sk, &m, 0) < 0) _exit(3);
}
static void prober_main(int sk)
{
    int held = -1;
    for (;;) {
        struct preq r; struct iovec v = { &r, sizeof r }; union { struct cmsghdr h; char b[CMSG_SPACE(sizeof(int))]; } c;
        struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1, .msg_control = &c, .msg_controllen = sizeof c };
        if (recvmsg(sk, &m, 0) <= 0) _exit(0);
        int fd = -1; struct cmsghdr* h = CMSG_FIRSTHDR(&m);
        if (h) memcpy(&fd, CMSG_DATA(h), sizeof fd);
        struct flock f = { .l_type = r.type, .l_whence = SEEK_SET, .l_start = r.start, .l_len = r.len };
        if (r.cmd != 2 && held >= 0) { close(held); held = -1; }
        if (r.cmd == 1) { r.cmd = fcntl(fd, F_SETLK, &f); held = fd; }
        else if (r.cmd == 2) { r.cmd = fcntl(fd, F_GETLK, &f); close(fd); }
        r.type = f.l_type; r.start = f.l_start; r.len = f.l_len;
        if (send(sk, &r, sizeof r, 0) < 0) _exit(0);
    }
}
static struct preq probe(int cmd, int fd, int type, int start, int len)
{
    struct preq r = { cmd, type, start, len };
    send_fd(prober, &r, fd);
    if (recv(prober, &r, sizeof r, 0) != sizeof r) _exit(3);
    prober_holds = cmd == 1 || (cmd == 2 && prober_holds);
    return r;
}
static void start_prober(void)
{
    int p[2];
    if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, p)) _exit(3);
    if (fork() == 0) { dup2(p[1], 300); close(p[0]); close(p[1]); prober_main(300); }
    prober = dup2(p[0], 301); close(p[0]); close(p[1]);
}
static const char* lkname(int t) { return t == F_RDLCK ? "r" : t == F_WRLCK ? "w" : "u"; }

/* ---- operations ---- */
static int live[MAXFD + 64], nlive;        /* descriptors of the transaction's view */
static int base[MAXFD + 64], nbase;        /* ... from before it */
static void drop(int* a, int* n, int fd) { for (int i = 0; i < *n; ++i) if (a[i] == fd) { a[i] = a[--*n]; return; } }
static const char* const nms[] = { "n0", "n1", "n2", "n3", "n4", "d", "n0", "n1" };
static const char* const accs[] = { "r", "w", "rw", "rw", "rw" };
static const int accf[] = { O_RDONLY, O_WRONLY, O_RDWR, O_RDWR, O_RDWR };
static int ispipe(int fd) { struct stat st; return !fstat(fd, &st) && S_ISFIFO(st.st_mode); }
static int isdir(int fd) { struct stat st; return !fstat(fd, &st) && S_ISDIR(st.st_mode); }
static char touched[2000];                 /* files that the attempt has used */
static int anyfd(uint64_t* s)
{
    int k = rg(s) % 60;
    if (k == 0) return -1;
    if (k == 1) return 45;                  /* not open */
    if (k == 2) return 5000;
    return nlive ? live[rg(s) % nlive] : 45;
}
static void sh_op(uint64_t* s, int i)
{
    static const int mix0[] = { 16, 0, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 7, 8, 10 },
                     mix1[] = { 16, 0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 9, 11, 12, 14, 15 },
                     mix2[] = { 16, 17, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7, 8, 11, 12, 13, 13, 14, 15 };
    if (i == 0) { memcpy(live, base, sizeof base); nlive = nbase; memset(touched, 0, sizeof touched); }
    if (prober_holds) probe(0, -1, 0, 0, 0);
    if (rg(s) % 6 == 0) sh_look();
    int op = mode == 0 ? mix0[rg(s) % 22] : mode == 1 ? mix1[rg(s) % 21] : mix2[rg(s) % 25];
    if (nlive >= MAXFD - 6 && (op == 0 || op == 2 || op >= 14)) op = 3;
    unsigned char b[64]; int fd = anyfd(s), n = rg(s) % 3 ? rg(s) % 20 : rg(s) % 45, off = rg(s) % 90, v0 = rg(s) % 200;
    if (rg(s) % 25 == 0) n = 0;
    if (rg(s) % 40 == 0) off = -1 - (int)(rg(s) % 3);
    for (int k = 0; k < n; ++k) { b[k] = 1 + (v0 + k * 3) % 250; memset(wbuf + k * unit, b[k], unit); }
    if (ispipe(fd) && (op == 3 || op == 4 || op == 8 || op == 9 || op == 10)) op = 2;
    if (isdir(fd) && op == 4) op = 8;
    if (fcntl(fd, F_GETFD) >= 0) { struct stat st; if (!fstat(fd, &st) && label(&st) > 0) touched[label(&st)] = 1; }
    if (isdir(fd) && op == 5 && off < 0) off = 0;
    switch (op) {
    case 0: {
        int a = rg(s) % 5, cr = rg(s) % 3 != 0, ex = cr && (rg(s) & 1), app = rg(s) % 5 == 0, ce = rg(s) % 4 == 0, m = 0600 | (rg(s) & 077);
        if (mode == 0) cr = cr && rg(s) % 3 == 0;
        const char* nm = nms[rg(s) % 8]; struct stat st;
        if (!strcmp(nm, "d") && rg(s) % 4) { cr = ex = app = a = 0; }
        int had = !lstat(path(nm), &st), tc = a && !app && rg(s) % (picotm_is_irrevocable() ? 2 : 30) == 0 && !(had && (S_ISDIR(st.st_mode) || touched[label(&st)])), creat = 0;
        if (tc && rg(s) % 3 == 0) { creat = cr = 1; ex = app = ce = 0; a = 1; }
        tr("{\"e\":\"call\",\"n\":\"open\",\"name\":\"%s\",\"acc\":\"%s\",\"cr\":%d,\"ex\":%d,\"app\":%d,\"ce\":%d,\"m\":%d,\"tc\":%d}", nm, accs[a], cr, ex, app, ce, m, tc);
        static char U4[400]; const char* pp = path(nm); int how = rg(s) & 1;
        if (how == 0) { store_tx(U4, pp, strlen(pp) + 1); pp = U4; }
        int r = creat ? how ? creat_tm(pp, m) : creat_tx(pp, m) : (how ? open_tm : open_tx)(pp, accf[a] | (tc ? O_TRUNC : 0) | (cr ? O_CREAT : 0) | (ex ? O_EXCL : 0) | (app ? O_APPEND : 0) | (ce ? O_CLOEXEC : 0), m);
        fstat(r, &st);
        tr("{\"e\":\"ret\",\"fd\":%d,\"fid\":%d,\"name\":\"\"}", r, had ? label(&st) : newlabel(&st));
        live[nlive++] = r; if (label(&st) > 0) touched[label(&st)] = 1;
        break; }
    case 1:
        tr("{\"e\":\"call\",\"n\":\"close\",\"fd\":%d}", fd);
        close_tx(fd); tr("{\"e\":\"ret\"}");
        drop(live, &nlive, fd);
        break;
    case 2: {
        int how = rg(s) % 3, start = how ? (int)(rg(s) % 14) - 1 : 0;
        if (start < 0 && rg(s) % 4) start = 30;
        tr("{\"e\":\"call\",\"n\":\"dup\",\"fd\":%d,\"start\":%d,\"ce\":%d}", fd, start, how == 2);
        int r = how == 0 ? dup_tx(fd) : (rg(s) & 1 ? fcntl_tm : fcntl_tx)(fd, how == 1 ? F_DUPFD : F_DUPFD_CLOEXEC, start);
        tr("{\"e\":\"ret\",\"fd\":%d,\"fid\":0,\"name\":\"\"}", r);
        live[nlive++] = r;
        break; }
    case 3: case 5: {
        if (op == 3) tr("{\"e\":\"call\",\"n\":\"read\",\"fd\":%d,\"len\":%d}", fd, n ? n : 1);
        else tr("{\"e\":\"call\",\"n\":\"pread\",\"fd\":%d,\"len\":%d,\"off\":%d}", fd, n ? n : 1, off);
        if (!n) n = 1;
        int r = op == 3 ? read_tx(fd, U, n * unit) : pread_tx(fd, U, n * unit, off * (long)unit);
        memset(b, 0xee, sizeof b); memset(rbuf, 0xee, n * unit);
        if (r > 0 && r <= n * unit) load_tx(U, rbuf, r);
        static char js[400]; char* q = js; q += sprintf(q, "[");
        for (int k = 0; k < (r + unit - 1) / unit && k < 64; ++k) q += sprintf(q, k ? ",%d" : "%d", unify(rbuf + k * unit));
        if (r < 0 || r > n * unit) sprintf(js, "[-1");
        tr("{\"e\":\"ret\",\"b\":%s]}", js);
        break; }
    case 4: case 6: {
        if (op == 4) tr("{\"e\":\"call\",\"n\":\"write\",\"fd\":%d,\"b\":%s}", fd, tr_bytes(b, n));
        else tr("{\"e\":\"call\",\"n\":\"pwrite\",\"fd\":%d,\"b\":%s,\"off\":%d}", fd, tr_bytes(b, n), off);
        long r; size_t z = n * unit;
        if (rg(s) & 1) { if (n) store_tx(U, wbuf, z); r = op == 4 ? write_tx(fd, U, z) : pwrite_tx(fd, U, z, off * (long)unit); }
        else r = op == 4 ? write_tm(fd, wbuf, z) : pwrite_tm(fd, wbuf, z, off * (long)unit);
        tr("{\"e\":\"ret\",\"r\":%ld}", units(r));
        break; }
    case 7: {
        int k = rg(s) % 13; const char* w = k < 4 ? "set" : k < 8 ? "cur" : k < 12 ? "end" : "bad";
        if (k >= 4 && k < 12) off = (int)(rg(s) % 40) - 20;
        tr("{\"e\":\"call\",\"n\":\"lseek\",\"fd\":%d,\"off\":%d,\"wh\":\"%s\"}", fd, off, w);
        long r = lseek_tx(fd, off * (long)unit, k < 4 ? SEEK_SET : k < 8 ? SEEK_CUR : k < 12 ? SEEK_END : 77);
        tr("{\"e\":\"ret\",\"r\":%ld}", units(r));
        break; }
    case 8: {
        static struct stat st;
        tr("{\"e\":\"call\",\"n\":\"fstat\",\"fd\":%d}", fd);
        fstat_tx(fd, &st);
        struct stat c; load_tx(&st, &c, sizeof c);
        tr("{\"e\":\"ret\",\"k\":\"%c\",\"m\":%d,\"z\":%ld}", kindof(&c), c.st_mode & 07777, S_ISREG(c.st_mode) ? units(c.st_size) : 0L);
        break; }
    case 9: {
        int m = 0400 | (rg(s) & 0377); if (isdir(fd)) m |= 0700;
        tr("{\"e\":\"call\",\"n\":\"fchmod\",\"fd\":%d,\"m\":%d}", fd, m);
        fchmod_tx(fd, m); tr("{\"e\":\"ret\"}");
        break; }
    case 10:
        tr("{\"e\":\"call\",\"n\":\"fsync\",\"fd\":%d}", fd);
        fsync_tx(fd); tr("{\"e\":\"ret\"}");
        break;
    case 16: case 17: {
        /* record locks, against those of another process */
        static struct flock fl; struct flock f; struct preq r = { 0 };
        int ok = fcntl(fd, F_GETFD) >= 0, acc = ok ? fcntl(fd, F_GETFL) & O_ACCMODE : 0, ct = F_UNLCK, cs = rg(s) % 30, cl = rg(s) % 20,
            t = rg(s) % 2 ? F_RDLCK : F_WRLCK, st = rg(s) % 30, len = rg(s) % 20, wait = 0;
        if (op == 17 && !picotm_is_irrevocable() && rg(s) % 4) return;
        if (ok && rg(s) % 3) {
            ct = acc == O_RDONLY ? F_RDLCK : acc == O_WRONLY ? F_WRLCK : rg(s) % 2 ? F_RDLCK : F_WRLCK;
            if (probe(1, fd, ct, cs, cl).cmd < 0) ct = F_UNLCK;
        } else wait = rg(s) % 2;
        if (op == 17 && rg(s) % 6 == 0) t = F_UNLCK;
        memset(&f, 0, sizeof f); f.l_type = t; f.l_whence = SEEK_SET; f.l_start = st; f.l_len = len; store_tx(&fl, &f, sizeof f);
        tr("{\"e\":\"call\",\"n\":\"%s\",\"fd\":%d,\"t\":\"%s\",\"s\":%d,\"l\":%d,\"ct\":\"%s\",\"cs\":%d,\"cl\":%d}", op == 16 ? "getlk" : "setlk", fd, lkname(t), st, len, lkname(ct), cs, cl);
        int cmd = op == 16 ? F_GETLK : wait ? F_SETLKW : F_SETLK;
        if (rg(s) & 1) { fcntl_tx(fd, cmd, &fl); load_tx(&fl, &f, sizeof f); } else fcntl_tm(fd, cmd, &f);
        if (op == 16) tr("{\"e\":\"ret\",\"t\":\"%s\",\"s\":%ld,\"l\":%ld}", lkname(f.l_type), (long)f.l_start, (long)f.l_len);
        else {
            if (ct == F_UNLCK) r = probe(2, fd, F_WRLCK, 0, 0); else r.type = -1;
            tr("{\"e\":\"ret\",\"t\":\"%s\",\"s\":%d,\"l\":%d}", r.type < 0 ? "?" : lkname(r.type), r.start, r.len);
            f.l_type = F_UNLCK; f.l_whence = SEEK_SET; f.l_start = f.l_len = 0; fcntl(fd, F_SETLK, &f);
        }
        break; }
    case 11: {
        tr("{\"e\":\"call\",\"n\":\"getfd\",\"fd\":%d}", fd);
        int r = (rg(s) & 1 ? fcntl_tm : fcntl_tx)(fd, F_GETFD); tr("{\"e\":\"ret\",\"r\":%d}", r);
        break; }
    case 12: {
        tr("{\"e\":\"call\",\"n\":\"getfl\",\"fd\":%d}", fd);
        int r = (rg(s) & 1 ? fcntl_tm : fcntl_tx)(fd, F_GETFL), a = r & O_ACCMODE;
        tr("{\"e\":\"ret\",\"acc\":\"%s\",\"app\":%d}", a == O_RDWR ? "rw" : a == O_WRONLY ? "w" : "r", !!(r & O_APPEND));
        break; }
    case 13: {
        if (!picotm_is_irrevocable() && rg(s) % 4) { op = 2; return; }
        int v = rg(s) & 1;
        tr("{\"e\":\"call\",\"n\":\"setfd\",\"fd\":%d,\"v\":%d}", fd, v);
        (rg(s) & 1 ? fcntl_tm : fcntl_tx)(fd, F_SETFD, v ? FD_CLOEXEC : 0); tr("{\"e\":\"ret\"}");
        break; }
    case 14: {
        static char p[320]; struct stat st; char q[320];
        tr("{\"e\":\"call\",\"n\":\"mkstemp\"}");
        strcpy(q, path("tXXXXXX")); store_tx(p, q, strlen(q) + 1);
        int r = mkstemp_tx(p);
        load_tx(p, q, strlen(q) + 1); fstat(r, &st);
        tr("{\"e\":\"ret\",\"fd\":%d,\"fid\":%d,\"name\":\"%s\"}", r, newlabel(&st), strrchr(q, '/') + 1);
        live[nlive++] = r;
        break; }
    case 15: {
        static int pf[2]; int c[2]; struct stat st;
        tr("{\"e\":\"call\",\"n\":\"pipe\"}");
        pipe_tx(pf); load_tx(pf, c, sizeof c);
        fstat(c[0], &st);
        tr("{\"e\":\"ret\",\"fd\":%d,\"fd2\":%d,\"fid\":%d,\"name\":\"\"}", c[0], c[1], newlabel(&st));
        live[nlive++] = c[0]; live[nlive++] = c[1];
        break; }
    }
}
static int rmcb(const char* p, const struct stat* s, int t, struct FTW* f) { return remove(p); }
static void mkfile(const char* n, uint64_t* s)
{
    int z = rg(s) % 4 ? rg(s) % 75 : 0;
    for (int i = 0; i < z; ++i) memset(big + i * unit, 1 + (i + z) % 250, unit);
    int fd = open(path(n), O_CREAT | O_RDWR | O_EXCL, 0644); struct stat st;
    if (fd < 0 || write(fd, big, z * unit) != z * unit || fstat(fd, &st)) _exit(3);
    newlabel(&st);
    close(fd);
}
static void raw(uint64_t* s)
{
    int k = rg(s) % 8;
    if (nbase > 9) k = 2;
    if (k <= 1) {
        const char* nm = nms[rg(s) % 8]; int a = rg(s) % 5, app = rg(s) % 6 == 0; struct stat st;
        if (!strcmp(nm, "d")) a = app = 0;
        if (lstat(path(nm), &st) || (S_ISDIR(st.st_mode) && a)) return;
        int fd = open(path(nm), accf[a] | (app ? O_APPEND : 0));
        tr("{\"e\":\"ropen\",\"fd\":%d,\"name\":\"%s\",\"acc\":\"%s\",\"app\":%d}", fd, nm, accs[a], app);
        base[nbase++] = fd;
    } else if (k <= 4 && nbase) {
        int fd = base[rg(s) % nbase];
        close(fd); drop(base, &nbase, fd);
        tr("{\"e\":\"rclose\",\"fd\":%d}", fd);
    } else if (k == 5 && nbase) {
        int o = base[rg(s) % nbase], fd = dup(o);
        tr("{\"e\":\"rdup\",\"old\":%d,\"fd\":%d}", o, fd);
        base[nbase++] = fd;
    } else if (k == 6) {
        const char* nm = nms[rg(s) % 5];
        if (!unlink(path(nm))) tr("{\"e\":\"runlink\",\"name\":\"%s\"}", nm);
    }
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    mode = !strcmp(argv[1], "abort") ? 1 : !strcmp(argv[1], "fd") ? 2 : 0;
    tr_open(argv[5]); crash_install();
    for (int fd = 3; fd < 400; ++fd) close(fd);
    start_prober();
    strcpy(root, "/tmp/verif-file-XXXXXX");
    if (!mkdtemp(root)) return 3;
    char top[256]; strcpy(top, root); strcat(root, "/r");
    umask(0);
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); struct stat st;
        if (mkdir(root, 0700) || mkdir(path("d"), 0750) || lstat(path("d"), &st)) return 3;
        static const int us[] = { 1, 1, 1, 1, 1, 31, 33, 1000, MAXUNIT };
        unit = us[rg(&s) % 9];
        nlab = nextf = nbase = 0;
        newlabel(&st); mkfile("n0", &s); mkfile("n1", &s); mkfile("n2", &s);
        look_as("reset", i);
        for (int k = rg(&s) % 6; k > 0; --k) raw(&s);
        picotm_libc_set_error_recovery(rg(&s) & 1 ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO);
        int ntx = 1 + rg(&s) % 4;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), mode == 0 ? 12 : 9); sh.looks = 1;
            sh_run();
            if (sh_committed) { memcpy(base, live, sizeof base); nbase = nlive; }
            sh_look();
            for (int r = rg(&s) % 4; r > 0; --r) raw(&s);
        }
        for (int fd = 3; fd < MAXFD + 40; ++fd) close(fd);
        if (chmod(path("d"), 0700)) return 3;
        nftw(root, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    }
    tr_flush();
    nftw(top, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    return 0;
}
