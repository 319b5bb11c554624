// FLAVOUR: plain
/* Pipes, FIFOs, terminals and sockets. usage: drv_stream rw SEED FIRST N OUT  (in a scratch directory) */
#include "txshell.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <ftw.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <termios.h>

enum { MAXFD = 48, MAXC = 128, MAXUNIT = 3000, LIMIT = 30000 };
static char root[64], fifo[80], lpath[80]; static int nbound; static const char* bpath(int i) { static char b[96]; snprintf(b, sizeof b, "%s/b%d", root, i); return b; }
static int unit, big;       /* big: small capacities; a helper thread reads the channels */
static int nlabel;
static struct { dev_t dev; ino_t ino; int f; } lab[256];
static int label(int fd)
{
    struct stat st; fstat(fd, &st);
    for (int i = 0; i < nlabel; ++i) if (lab[i].ino == st.st_ino && lab[i].dev == st.st_dev) return lab[i].f;
    lab[nlabel].dev = st.st_dev; lab[nlabel].ino = st.st_ino; lab[nlabel].f = nlabel + 1;
    return ++nlabel;
}
/* open file descriptions, channels and descriptors */
static struct { int f, w, r, sock, msg, nb, chr, bound, lis; const char* acc; } od[256]; static int nod;
static int nch;                             /* channels are numbered from 1 */
static struct { int rfd, closedw; long pend, want; int nmsg; unsigned char* b; long n; } ch[MAXC];
static int fdo[MAXFD + 64];
static int base[MAXFD], nbase, live[MAXFD], nlive, held[MAXFD], nheld;     /* held: not used by transactions */
static int lfd, nlq; static struct { int fd, c, d; } lqc[16];             /* listening socket; connections to be accepted */
static int fifoc, fifof;
static void drop(int* a, int* n, int fd) { for (int i = 0; i < *n; ++i) if (a[i] == fd) { a[i] = a[--*n]; return; } }
static int mk(int fd, int w, int r, int sock, int msg, const char* acc)
{
    int o = ++nod; memset(&od[o], 0, sizeof od[o]);
    od[o].f = label(fd); od[o].w = w; od[o].r = r; od[o].sock = sock; od[o].msg = msg; od[o].acc = acc;
    od[o].nb = !!(fcntl(fd, F_GETFL) & O_NONBLOCK);
    fdo[fd] = o;
    if (r) ch[r].rfd = fd;
    return o;
}
static int newch(void) { int c = ++nch; ch[c].rfd = -1; ch[c].closedw = 0; ch[c].pend = ch[c].want = 0; ch[c].nmsg = 0; ch[c].n = 0; return c; }

/* ---- observation ---- */
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static int stop_helper;
static long inq(int c) { int n = 0; if (ch[c].rfd < 0 || ioctl(ch[c].rfd, FIONREAD, &n)) n = 0; return n; }
static void suck(int c)
{
    long n = inq(c);
    if (n <= 0 || ch[c].n + n > 1000000) return;
    long r = read(ch[c].rfd, ch[c].b + ch[c].n, n);
    if (r > 0) ch[c].n += r;
}
static void* helper(void* a)
{
    for (;;) {
        pthread_mutex_lock(&mx);
        if (stop_helper) { pthread_mutex_unlock(&mx); return NULL; }
        for (int c = 1; c <= nch; ++c) if (ch[c].rfd >= 0 && ch[c].b) suck(c);
        pthread_mutex_unlock(&mx);
        struct timespec ts = { 0, 30000 }; nanosleep(&ts, NULL);
    }
}
static long units(long n) { return n < 0 ? n : n % unit == 0 ? n / unit : 1000000 + n; }
static int unify(const unsigned char* b) { for (int i = 1; i < unit; ++i) if (b[i] != b[0]) return 999; return b[0]; }
static char* js_units(char* o, const unsigned char* b, long n)
{
    o += sprintf(o, "[");
    for (long k = 0; k < n / unit; ++k) o += sprintf(o, k ? ",%d" : "%d", unify(b + k * unit));
    if (n % unit) o += sprintf(o, n > unit ? ",%ld" : "%ld", 1000 + n % unit);
    o += sprintf(o, "]");
    return o;
}
static unsigned char buf[1 << 20]; static char js[1 << 17];
static int ischr(int c) { for (int i = 0; i < MAXFD; ++i) if (fdo[i] && (od[fdo[i]].w == c || od[fdo[i]].r == c) && od[fdo[i]].chr) return 1; return 0; }
static int eof(int c)
{
    struct pollfd p = { ch[c].rfd, POLLIN | POLLRDHUP, 0 };
    poll(&p, 1, 0);
    return !!(p.revents & (POLLHUP | POLLRDHUP));
}
static int reader(int c)   /* a live raw descriptor to look at the channel with */
{
    for (int i = 0; i < nlive; ++i) if (od[fdo[live[i]]].r == c && fcntl(live[i], F_GETFD) >= 0) return live[i];
    for (int i = 0; i < nheld; ++i) if (od[fdo[held[i]]].r == c) return held[i];
    return -1;
}
/* terminals deliver their data after a while */
static void settle(int c)
{
    for (int i = 0; i < 10000 && inq(c) < ch[c].want; ++i) { struct timespec ts = { 0, 500000 }; nanosleep(&ts, NULL); }
    if (inq(c) < ch[c].want) ch[c].want = inq(c);
}
static void look(int c, int drain)
{
    pthread_mutex_lock(&mx);
    ch[c].rfd = reader(c);
    if (ch[c].rfd < 0) { pthread_mutex_unlock(&mx); return; }
    int o = fdo[ch[c].rfd];
    if (od[o].msg) {
        if (drain) {
            char* q = js; int k = 0; long r; q += sprintf(q, "[");
            while ((r = recv(ch[c].rfd, buf, sizeof buf, MSG_DONTWAIT)) >= 0) { if (k++) *q++ = ','; q = js_units(q, buf, r); }
            sprintf(q, "]"); ch[c].nmsg = 0;
            tr("{\"e\":\"drain\",\"c\":%d,\"b\":%s}", c, js);
        }
    } else {
        if (od[o].chr) settle(c);
        if (!od[o].chr) tr("{\"e\":\"look\",\"c\":%d,\"n\":%ld,\"eof\":%d}", c, units(ch[c].n + inq(c)), eof(c));
        if (drain) {
            if (!ch[c].b) ch[c].b = malloc(1000000);
            suck(c);
            js_units(js, ch[c].b, ch[c].n); ch[c].n = 0; ch[c].want = 0;
            tr("{\"e\":\"drain\",\"c\":%d,\"b\":%s}", c, js);
        }
    }
    pthread_mutex_unlock(&mx);
}
static void refresh(void)
{
    pthread_mutex_lock(&mx);
    for (int c = 1; c <= nch; ++c) ch[c].rfd = reader(c);
    pthread_mutex_unlock(&mx);
}
static uint64_t lookseed;
static void sh_look(void)
{
    lookseed = mix(lookseed, 5); uint64_t s = lookseed;
    for (int c = 1; c <= nch; ++c) if (rg(&s) % 2) look(c, rg(&s) % 3 == 0);
    char* q = js; int k = 0; q += sprintf(q, "[");
    for (int fd = 3; fd < MAXFD + 60; ++fd) if (fcntl(fd, F_GETFD) >= 0) q += sprintf(q, k++ ? ",%d" : "%d", fd);
    tr("{\"e\":\"fds\",\"fds\":%s]}", js);
    for (int i = 0; i < nlive; ++i) {
        int fd = live[i], o = fdo[fd], v = 0; struct sockaddr_un a; socklen_t z = sizeof a, y = sizeof v;
        if (!od[o].sock || od[o].w || getsockname(fd, (struct sockaddr*)&a, &z)) continue;
        getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &y);
        tr("{\"e\":\"sock\",\"fd\":%d,\"bound\":%d,\"lis\":%d}", fd, z > sizeof a.sun_family, !!v);
    }
}

/* ---- operations ---- */
static unsigned char wbuf[64 * MAXUNIT], U[64 * MAXUNIT], rbuf[64 * MAXUNIT];
static void make(uint64_t* s, unsigned char* b, int n) { int v = rg(s) % 200; for (int k = 0; k < n; ++k) { b[k] = 1 + (v + k * 3) % 250; memset(wbuf + k * unit, b[k], unit); } }
static int hasreader(int c) { for (int i = 0; i < nlive; ++i) if (od[fdo[live[i]]].r == c) return 1;
                              for (int i = 0; i < nheld; ++i) if (od[fdo[held[i]]].r == c) return 1;
                              for (int i = 0; i < nlq; ++i) if (lqc[i].c == c) return 1; return 0; }
static int shares(int fd) { for (int i = 0; i < nlive; ++i) if (live[i] != fd && fdo[live[i]] == fdo[fd]) return 1; return 0; }
static int lastpend;
static socklen_t AL; /* length of an address; garbage before a transaction sets it */
static void sh_op(uint64_t* s, int i)
{
    static const int kinds[] = { 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 15, 16, 16, 17, 17 };
    if (i == 0) {
        memcpy(live, base, sizeof base); nlive = nbase; nlq = lastpend;
        for (int c = 1; c <= nch; ++c) ch[c].pend = 0;
        refresh();
    }
    if (rg(s) % 6 == 0) sh_look();
    int k = kinds[rg(s) % 31], irr = picotm_is_irrevocable(), fd = live[rg(s) % nlive], bad = rg(s) % 60;
    /* most programs stay revocable for a while */
    if (!irr && (k == 2 || k == 3 || k == 9 || k == 10 || k == 11 || k == 12 || k == 15 || k == 17) && rg(s) % 3) k = 0;
    if (bad == 0) fd = -1; else if (bad == 1) fd = MAXFD + 20; else if (bad == 2) fd = 100000;
    int open = bad > 2, o = open ? fdo[fd] : 0;
    if (!open && k >= 4 && k != 8) k = 0;
    unsigned char b[64]; int n = rg(s) % 8 ? 1 + rg(s) % 8 : 0;
    if (big) n = rg(s) % 24;
    if (k == 1 && open && !od[o].sock && rg(s) % 4) k = 0;
    if ((k == 0 || k == 1) && open && !od[o].w && rg(s) % 8)   /* rather one that can be written to */
        for (int t = 0; t < 20 && !od[o].w; ++t) { fd = live[rg(s) % nlive]; o = fdo[fd]; }
    int freesk = 0;
    for (int j = 0; j < nlive; ++j) if (od[fdo[live[j]]].sock && !od[fdo[live[j]]].w && live[j] != lfd) freesk = live[j];
    int lone = k == 15 && !freesk && rg(s) % 6;
    if (lone) k = 8;
    switch (k) {
    case 0: case 1: {
        if (open && od[o].w) {
            int c = od[o].w;
            if (!hasreader(c) || ch[c].closedw) return;
            if (od[o].msg && (n == 0 || ch[c].nmsg >= 8)) return;
            if (!big && inq(c) + ch[c].pend + n * unit > (od[o].chr ? 1500 : LIMIT)) return;
            if (big && irr && od[o].sock) return;
        } else if (open && od[o].sock) return;      /* not connected */
        if (!open || !od[o].w) n = 1 + n % 4;
        make(s, b, n);
        int fl = k == 1 && (irr || rg(s) % 5 == 0) ? rg(s) % 2 : 0;
        if (k == 0) tr("{\"e\":\"call\",\"n\":\"write\",\"fd\":%d,\"b\":%s}", fd, tr_bytes(b, n));
        else tr("{\"e\":\"call\",\"n\":\"send\",\"fd\":%d,\"fl\":%d,\"b\":%s}", fd, fl, tr_bytes(b, n));
        long r; size_t z = n * unit; fl = fl ? MSG_NOSIGNAL : 0;
        if (rg(s) & 1) { if (n) store_tx(U, wbuf, z); r = k == 0 ? write_tx(fd, U, z) : send_tx(fd, U, z, fl); if (n) { unsigned char x = 0xff; store_tx(U, &x, 1); } }
        else { r = k == 0 ? write_tm(fd, wbuf, z) : send_tm(fd, wbuf, z, fl); memset(wbuf, 0xfe, z); }
        tr("{\"e\":\"ret\",\"r\":%ld}", units(r));
        if (open && od[o].w) { ch[od[o].w].nmsg++; if (r > 0) { if (irr) ch[od[o].w].want += r; else ch[od[o].w].pend += r; } }
        break; }
    case 2: case 3: {
        if (big && open) return;
        int peek = k == 3 && rg(s) % 2;
        n = 1 + rg(s) % 8;
        if (open && od[o].r) {
            int c = od[o].r; long a;
            if (od[o].msg) return;
            if (od[o].sock) recv(fd, buf, 1, MSG_PEEK | MSG_DONTWAIT);     /* clears pending errors */
            ch[c].rfd = fd; if (od[o].chr) settle(c);
            a = inq(c);
            if (a < n * unit && (irr || rg(s) % 4)) {
                if (peek && a) ;
                else if (!od[o].nb && a) n = a / unit;      /* must not wait */
                else if (!od[o].nb && (od[o].chr || !eof(c))) { if (!irr && rg(s) % 2) break; return; }
            }
        } else if (open && od[o].sock) return;
        if (k == 2) tr("{\"e\":\"call\",\"n\":\"read\",\"fd\":%d,\"len\":%d}", fd, n);
        else tr("{\"e\":\"call\",\"n\":\"recv\",\"fd\":%d,\"len\":%d,\"peek\":%d}", fd, n, peek);
        long r, z = n * unit;
        memset(rbuf, 0xee, z); store_tx(U, rbuf, z);
        r = k == 2 ? read_tx(fd, U, z) : recv_tx(fd, U, z, peek ? MSG_PEEK : 0);
        load_tx(U, rbuf, z);
        if (open && r > 0 && !peek) ch[od[o].r].want -= r;
        if (r < 0 || r > z) strcpy(js, "[]"); else js_units(js, rbuf, r);
        for (long x = r < 0 ? 0 : r; x < z; ++x) if (rbuf[x] != 0xee) strcpy(js, "[-1]");
        tr("{\"e\":\"ret\",\"r\":%ld,\"b\":%s}", units(r), js);
        break; }
    case 4: {
        if (nlive > 30) return;
        tr("{\"e\":\"call\",\"n\":\"dup\",\"fd\":%d}", fd);
        int r = dup_tx(fd); tr("{\"e\":\"ret\",\"fd\":%d}", r);
        live[nlive++] = r; fdo[r] = o;
        break; }
    case 5:
        /* readers stay open, and so do sockets with input */
        if (!shares(fd) && (od[o].r || od[o].sock || rg(s) % 2)) return;
        tr("{\"e\":\"call\",\"n\":\"close\",\"fd\":%d}", fd);
        close_tx(fd); tr("{\"e\":\"ret\"}");
        drop(live, &nlive, fd); refresh();
        break;
    case 6: {
        static int pf[2]; int c[2];
        if (nlive > 30 || nch > MAXC - 8 || big) return;
        tr("{\"e\":\"call\",\"n\":\"pipe\"}");
        pipe_tx(pf); load_tx(pf, c, sizeof c);
        int x = newch(); mk(c[0], 0, x, 0, 0, "r"); mk(c[1], x, 0, 0, 0, "w");
        tr("{\"e\":\"ret\",\"fd\":%d,\"fd2\":%d,\"f\":%d,\"c\":%d}", c[0], c[1], label(c[0]), x);
        live[nlive++] = c[0]; live[nlive++] = c[1];
        break; }
    case 7: {
        if (nlive > 30 || !fifoc) return;
        int nb = rg(s) & 1;
        tr("{\"e\":\"call\",\"n\":\"open\",\"f\":%d,\"c\":%d,\"nb\":%d}", fifof, fifoc, nb);
        int r = open_tx(fifo, O_WRONLY | (nb ? O_NONBLOCK : 0), 0);
        mk(r, fifoc, 0, 0, 0, "w");
        tr("{\"e\":\"ret\",\"fd\":%d,\"f\":%d}", r, label(r));
        live[nlive++] = r;
        break; }
    case 8: {
        if (nlive > 30 || nch > MAXC - 8) return;
        tr("{\"e\":\"call\",\"n\":\"socket\"}");
        int r = socket_tx(AF_UNIX, SOCK_STREAM, 0);
        mk(r, 0, 0, 1, 0, "rw");
        tr("{\"e\":\"ret\",\"fd\":%d,\"f\":%d}", r, label(r));
        live[nlive++] = r;
        if (lone || rg(s) % 3 == 0 || nlq >= 4) break;
        int c = newch(), d = newch(); struct sockaddr_un a = { AF_UNIX }; strcpy(a.sun_path, lpath);
        tr("{\"e\":\"call\",\"n\":\"connect\",\"fd\":%d,\"c\":%d,\"d\":%d}", r, c, d);
        connect_tm(r, (struct sockaddr*)&a, sizeof a);
        tr("{\"e\":\"ret\"}");
        od[fdo[r]].w = c; od[fdo[r]].r = d; ch[d].rfd = r;
        lqc[nlq].fd = -1; lqc[nlq].c = c; lqc[nlq].d = d; nlq++; lastpend = nlq;
        break; }
    case 9: {
        if (!nlq) return;
        tr("{\"e\":\"call\",\"n\":\"accept\",\"fd\":%d}", lfd);
        static unsigned char AB[32]; unsigned char ab[32], peer[32];
        socklen_t room = rg(s) % 3 ? rg(s) % 20 : 0, al = room, pl = sizeof peer; int how = rg(s) % 4, r;
        memset(ab, 0xee, sizeof ab);
        if (how) { store_tx(AB, ab, sizeof ab); store_tx(&AL, &al, sizeof al); }
        switch (how) {
        case 0: r = accept_tm(lfd, NULL, NULL); break;
        case 1: r = accept_tx(lfd, NULL, NULL); break;
        default: r = accept_tx(lfd, (struct sockaddr*)AB, &AL); break;
        }
        if (how) { load_tx(AB, ab, sizeof ab); load_tx(&AL, &al, sizeof al); }
        if (getpeername(r, (struct sockaddr*)peer, &pl)) pl = 0;
        mk(r, lqc[0].d, lqc[0].c, 1, 0, "rw");
        tr("{\"e\":\"ret\",\"fd\":%d,\"f\":%d,\"how\":%d,\"room\":%d,\"len\":%d,\"addr\":%s,\"peer\":%s}", r, label(r), how, (int)room, (int)al, tr_bytes(ab, sizeof ab), tr_bytes(peer, pl));
        memmove(lqc, lqc + 1, sizeof lqc - sizeof lqc[0]); lastpend = --nlq;
        live[nlive++] = r;
        break; }
    case 10:
        if (od[o].sock && (!od[o].w || shares(fd) || od[o].msg)) return;
        tr("{\"e\":\"call\",\"n\":\"shutdown\",\"fd\":%d}", fd);
        shutdown_tx(fd, SHUT_WR); tr("{\"e\":\"ret\"}");
        ch[od[o].w].closedw = 1;
        break;
    case 11: {
        int nb = rg(s) & 1;
        tr("{\"e\":\"call\",\"n\":\"setfl\",\"fd\":%d,\"nb\":%d}", fd, nb);
        fcntl_tx(fd, F_SETFL, nb ? O_NONBLOCK : 0); tr("{\"e\":\"ret\"}");
        od[o].nb = nb;
        break; }
    case 12: {
        tr("{\"e\":\"call\",\"n\":\"getfl\",\"fd\":%d}", fd);
        int r = fcntl_tx(fd, F_GETFL), a = r & O_ACCMODE;
        tr("{\"e\":\"ret\",\"acc\":\"%s\",\"nb\":%d}", a == O_RDWR ? "rw" : a == O_WRONLY ? "w" : "r", !!(r & O_NONBLOCK));
        break; }
    case 13: {
        if (od[o].chr || rg(s) % 3) return;
        int z = rg(s) % 3;
        tr("{\"e\":\"call\",\"n\":\"%s\",\"fd\":%d}", z == 0 ? "lseek" : z == 1 ? "pread" : "pwrite", fd);
        if (z == 0) lseek_tx(fd, 0, SEEK_CUR); else if (z == 1) pread_tx(fd, U, 1, 0); else pwrite_tx(fd, U, 1, 0);
        tr("{\"e\":\"ret\",\"r\":0}");
        break; }
    case 15: {
        if (freesk && rg(s) % 4) { fd = freesk; o = fdo[fd]; }
        if (od[o].sock && (od[o].w || fd == lfd)) return;
        if (rg(s) & 1) {
            int fresh = od[o].bound || !nbound || rg(s) % 4, x = fresh ? nbound + 1 : 1 + rg(s) % nbound, how = rg(s) & 1;
            static struct sockaddr_un U2; struct sockaddr_un a = { AF_UNIX }; strcpy(a.sun_path, bpath(x));
            tr("{\"e\":\"call\",\"n\":\"bind\",\"fd\":%d,\"x\":%d}", fd, x);
            if (how) { store_tx(&U2, &a, sizeof a); bind_tx(fd, (struct sockaddr*)&U2, sizeof U2); memset(&a, 0, sizeof a); store_tx(&U2, &a, sizeof a); }
            else bind_tm(fd, (struct sockaddr*)&a, sizeof a);
            if (x > nbound) nbound = x;
            tr("{\"e\":\"ret\",\"here\":%d}", !access(bpath(x), F_OK));
            od[o].bound = 1;
        } else {
            tr("{\"e\":\"call\",\"n\":\"listen\",\"fd\":%d}", fd);
            listen_tx(fd, 3); tr("{\"e\":\"ret\"}");
            od[o].lis = 1;
        }
        break; }
    case 16: {
        static struct stat sb; struct stat a, c;
        tr("{\"e\":\"call\",\"n\":\"fstat\",\"fd\":%d}", fd);
        memset(&c, 0xee, sizeof c); store_tx(&sb, &c, sizeof c);
        fstat_tx(fd, &sb); load_tx(&sb, &c, sizeof c); fstat(fd, &a);
        tr("{\"e\":\"ret\",\"sock\":%d,\"f\":%d,\"same\":%d}", S_ISSOCK(c.st_mode), label(fd), a.st_ino == c.st_ino && a.st_dev == c.st_dev && a.st_mode == c.st_mode && a.st_nlink == c.st_nlink && a.st_uid == c.st_uid);
        break; }
    case 17: {
        /* control operations of which the system decides about the outcome */
        int z = rg(s) % 5, r; static struct flock U3; struct flock f = { .l_type = rg(s) % 2 ? F_RDLCK : F_WRLCK, .l_whence = SEEK_SET, .l_start = rg(s) % 9, .l_len = rg(s) % 9 }, g;
        static const char* const nm[] = { "getlk", "setlk", "getown", "setown", "badcmd" };
        errno = 0;
        if (z == 0) { g = f; fcntl(fd, F_GETLK, &g); }
        if (z == 1) { g = f; g.l_type = F_UNLCK; fcntl(fd, F_SETLK, &f); int e = errno; fcntl(fd, F_SETLK, &g); errno = e; }
        if (z == 4) errno = EINVAL;
        tr("{\"e\":\"call\",\"n\":\"ctl\",\"fd\":%d,\"what\":\"%s\",\"re\":%d}", fd, nm[z], z == 2 || z == 3 ? 0 : errno);
        if (z == 0) { store_tx(&U3, &f, sizeof f); fcntl_tx(fd, F_GETLK, &U3); load_tx(&U3, &f, sizeof f); r = f.l_type == g.l_type && f.l_start == g.l_start && f.l_len == g.l_len; }
        if (z == 1) { store_tx(&U3, &f, sizeof f); fcntl_tx(fd, F_SETLK, &U3); r = 1; f.l_type = F_UNLCK; fcntl(fd, F_SETLK, &f); }
        if (z == 2) r = fcntl_tx(fd, F_GETOWN) == fcntl(fd, F_GETOWN);
        if (z == 3) { int v = rg(s) & 1 ? getpid() : 0; fcntl_tx(fd, F_SETOWN, v); r = fcntl(fd, F_GETOWN) == v; }
        if (z == 4) { fcntl_tx(fd, 987654); r = 0; }
        tr("{\"e\":\"ret\",\"r\":%d}", r);
        break; }
    case 14:
        if (od[o].chr || rg(s) % 3) return;
        tr("{\"e\":\"call\",\"n\":\"fsync\",\"fd\":%d}", fd);
        fsync_tx(fd); tr("{\"e\":\"ret\",\"r\":0}");
        break;
    }
}
static void raw(uint64_t* s)
{
    AL = 1u << 30;
    int k = rg(s) % 8, fd = base[rg(s) % nbase], o = fdo[fd];
    if (k <= 3) {
        unsigned char b[8]; int n = 1 + rg(s) % 7;
        for (int t = 0; t < 10 && !od[o].w; ++t) { fd = rg(s) % 3 == 0 && nheld ? held[rg(s) % nheld] : base[rg(s) % nbase]; o = fdo[fd]; }
        int c = od[o].w;
        if (!c || !hasreader(c) || ch[c].closedw || inq(c) + n * unit > (od[o].chr ? 1000 : 10000) || (od[o].msg && ch[c].nmsg >= 6) || big) return;
        for (int i = 0; i < nlq; ++i) if (lqc[i].fd == fd) return;
        make(s, b, n);
        tr("{\"e\":\"rwrite\",\"fd\":%d,\"b\":%s}", fd, tr_bytes(b, n));
        if (write(fd, wbuf, n * unit) != n * unit) _exit(3);
        ch[c].nmsg++; ch[c].want += n * unit;
        ch[c].rfd = reader(c);
        if (od[o].chr) settle(c);
    } else if (k == 4 && nbase < 20) {
        int r = dup(fd); fdo[r] = o;
        tr("{\"e\":\"rdup\",\"old\":%d,\"fd\":%d}", fd, r);
        base[nbase++] = r;
    } else if (k == 5 && shares(fd)) {
        pthread_mutex_lock(&mx); close(fd); for (int c = 1; c <= nch; ++c) if (ch[c].rfd == fd) ch[c].rfd = -1; pthread_mutex_unlock(&mx);
        drop(base, &nbase, fd);
        tr("{\"e\":\"rclose\",\"fd\":%d}", fd);
    } else if (k == 6 && nlq < 4 && nch < MAXC - 8 && nheld < 20) {
        struct sockaddr_un a = { AF_UNIX }; strcpy(a.sun_path, lpath);
        int r = socket(AF_UNIX, SOCK_STREAM, 0), c = newch(), d = newch();
        if (rg(s) & 1) { struct sockaddr_un u = { AF_UNIX }; bind(r, (struct sockaddr*)&u, sizeof(sa_family_t)); } /* gets a name */
        if (connect(r, (struct sockaddr*)&a, sizeof a)) _exit(3);
        mk(r, c, d, 1, 0, "rw"); held[nheld++] = r;
        lqc[nlq].fd = r; lqc[nlq].c = c; lqc[nlq].d = d; lastpend = ++nlq;
        tr("{\"e\":\"rconnect\",\"fd\":%d,\"f\":%d,\"c\":%d,\"d\":%d}", r, label(r), c, d);
    } else if (k == 7 && nlq && nheld < 20) {
        int r = accept(lfd, NULL, NULL);
        mk(r, lqc[0].d, lqc[0].c, 1, 0, "rw"); held[nheld++] = r;
        memmove(lqc, lqc + 1, sizeof lqc - sizeof lqc[0]); lastpend = --nlq;
        tr("{\"e\":\"raccept\",\"fd\":%d,\"f\":%d}", r, label(r));
    }
}
static int rmcb(const char* p, const struct stat* s, int t, struct FTW* f) { return remove(p); }
static void pair(int a, int b, int sock, int msg)
{
    if (sock) { int c = newch(), d = newch(); mk(a, c, d, 1, msg, "rw"); mk(b, d, c, 1, msg, "rw"); }
    else { int c = newch(); mk(a, 0, c, 0, 0, "r"); mk(b, c, 0, 0, 0, "w"); if (big) fcntl(a, F_SETPIPE_SZ, 4096); }
    if (sock && big) { int z = 4608; setsockopt(a, SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(b, SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
    base[nbase++] = a; base[nbase++] = b;
}
static int have_pty;
static void setup(uint64_t* s)
{
    int p[2];
    nlabel = nod = nch = nbase = nheld = nlq = lastpend = fifoc = nbound = 0; memset(fdo, 0, sizeof fdo);
    struct sockaddr_un a = { AF_UNIX }; strcpy(a.sun_path, lpath);
    lfd = socket(AF_UNIX, SOCK_STREAM, 0);
    if (lfd < 0 || bind(lfd, (struct sockaddr*)&a, sizeof a) || listen(lfd, 8)) _exit(3);
    mk(lfd, 0, 0, 1, 0, "rw"); held[nheld++] = lfd;
    int n = 1 + rg(s) % 3;
    for (int i = 0; i < n; ++i) switch (rg(s) % 5) {
    case 0: case 1: if (pipe(p)) _exit(3); pair(p[0], p[1], 0, 0); break;
    case 2: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(3); pair(p[0], p[1], 1, 0); break;
    case 3:
        if (big) { --i; break; }
        if (socketpair(AF_UNIX, rg(s) & 1 ? SOCK_DGRAM : SOCK_SEQPACKET, 0, p)) _exit(3);
        pair(p[0], p[1], 1, 1); break;
    case 4: {
        if (fifoc) break;
        if (mkfifo(fifo, 0600)) _exit(3);
        p[0] = open(fifo, O_RDONLY | O_NONBLOCK); p[1] = open(fifo, O_WRONLY); fcntl(p[0], F_SETFL, 0);
        pair(p[0], p[1], 0, 0); fifoc = nch; fifof = label(p[0]);
        break; }
    }
    if (!nbase) { if (pipe(p)) _exit(3); pair(p[0], p[1], 0, 0); }
    if (unit == 1 && have_pty && !big && rg(s) % 2) {
        p[0] = posix_openpt(O_RDWR | O_NOCTTY);
        if (p[0] >= 0) {
            struct termios t; grantpt(p[0]); unlockpt(p[0]); p[1] = open(ptsname(p[0]), O_RDWR | O_NOCTTY);
            if (p[1] < 0) { close(p[0]); have_pty = 0; }
            else {
                tcgetattr(p[1], &t); cfmakeraw(&t); tcsetattr(p[1], TCSANOW, &t);
                int c = newch(), d = newch(); mk(p[0], c, d, 0, 0, "rw"); mk(p[1], d, c, 0, 0, "rw");
                od[fdo[p[0]]].chr = od[fdo[p[1]]].chr = 1;
                held[nheld++] = p[0]; base[nbase++] = p[1];
            }
        }
    }
    for (int i = 0; i < nbase; ++i) if (rg(s) % 4 == 0) { fcntl(base[i], F_SETFL, O_NONBLOCK); od[fdo[base[i]]].nb = 1; }
    memcpy(live, base, sizeof base); nlive = nbase;
    if (big) for (int c = 1; c <= nch; ++c) if (!ch[c].b) ch[c].b = malloc(1000000);
    for (int c = nch + 1; c < MAXC; ++c) ch[c].b = NULL;
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    signal(SIGPIPE, SIG_IGN);
    for (int fd = 3; fd < 400; ++fd) close(fd);
    strcpy(root, "/tmp/verif-stream-XXXXXX");
    if (!mkdtemp(root)) return 3;
    snprintf(fifo, sizeof fifo, "%s/f", root); snprintf(lpath, sizeof lpath, "%s/l", root);
    umask(0); have_pty = 1;
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i); lookseed = mix(s, 9);
        static const int us[] = { 1, 1, 1, 1, 3, 31, 1000, MAXUNIT };
        unit = us[rg(&s) % 8]; big = rg(&s) % 4 == 0; if (big) unit = 512;
        setup(&s);
        char* q = js; q += sprintf(q, "{\"e\":\"reset\",\"run\":%d,\"ofds\":[", i);
        for (int o = 1; o <= nod; ++o) q += sprintf(q, "%s{\"o\":%d,\"f\":%d,\"w\":%d,\"r\":%d,\"sock\":%d,\"msg\":%d,\"nb\":%d,\"acc\":\"%s\"}", o > 1 ? "," : "", o, od[o].f, od[o].w, od[o].r, od[o].sock, od[o].msg, od[o].nb, od[o].acc);
        q += sprintf(q, "],\"fds\":[");
        for (int k = 0; k < nbase; ++k) q += sprintf(q, "%s{\"fd\":%d,\"o\":%d}", k ? "," : "", base[k], fdo[base[k]]);
        for (int k = 0; k < nheld; ++k) q += sprintf(q, ",{\"fd\":%d,\"o\":%d}", held[k], fdo[held[k]]);
        tr("%s]}", js);
        pthread_t th; stop_helper = 0;
        if (big) pthread_create(&th, NULL, helper, NULL);
        for (int k = rg(&s) % 6; k > 0; --k) raw(&s);
        picotm_libc_set_error_recovery(rg(&s) & 1 ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO);
        int ntx = 1 + rg(&s) % 4;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), 9); sh.looks = 1;
            sh_run();
            if (sh_committed) { memcpy(base, live, sizeof base); nbase = nlive; for (int c = 1; c <= nch; ++c) ch[c].want += ch[c].pend; }
            memcpy(live, base, sizeof base); nlive = nbase; refresh();
            for (int c = 1; c <= nch; ++c) ch[c].pend = 0;
            sh_look();
            for (int r = rg(&s) % 4; r > 0; --r) { memcpy(live, base, sizeof base); nlive = nbase; raw(&s); }
            memcpy(live, base, sizeof base); nlive = nbase;
        }
        for (int c = 1; c <= nch; ++c) look(c, 1);
        if (big) { pthread_mutex_lock(&mx); stop_helper = 1; pthread_mutex_unlock(&mx); pthread_join(th, NULL); }
        for (int fd = 3; fd < MAXFD + 60; ++fd) close(fd);
        unlink(fifo); unlink(lpath);
        for (int k = 1; k <= nbound; ++k) unlink(bpath(k));
    }
    tr_flush();
    nftw(root, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    return 0;
}
