// FLAVOUR: plain
// WRAP: getcwd realpath free
/* Path operations and the working directory. usage: drv_fs fs|cwd SEED FIRST N OUT  (in a scratch directory) */
#include "txshell.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <dirent.h>
#include <ftw.h>
#include <sys/stat.h>

static char root[256];
static int cwdmode, dirfds[3];
static const char* const dirfdpath[2] = { "[\"a\"]", "[\"a\",\"c\"]" };

/* ---- buffers that getcwd() and realpath() allocate ---- */
#define NB 4096
static void* bufs[NB]; static int nbufs, ntracked;
char* __real_getcwd(char*, size_t); char* __real_realpath(const char*, char*); void __real_free(void*);
static void track(void* p) { for (int i = 0; i < NB; ++i) if (!bufs[i]) { bufs[i] = p; if (i >= ntracked) ntracked = i + 1; ++nbufs; return; } }
char* __wrap_getcwd(char* b, size_t n) { char* p = __real_getcwd(b, n); if (!b && p) track(p); return p; }
char* __wrap_realpath(const char* s, char* b) { char* p = __real_realpath(s, b); if (!b && p) track(p); return p; }
void __wrap_free(void* p)
{
    if (p) for (int i = 0; i < ntracked; ++i) if (bufs[i] == p) { bufs[i] = NULL; --nbufs; break; }
    __real_free(p);
}

/* ---- JSON form of a path below the scratch root ---- */
static char* jpath(char* o, const char* p)
{
    char* s = o;
    *o++ = '[';
    int n = 0;
    while (*p) {
        while (*p == '/') ++p;
        if (!*p) break;
        o += sprintf(o, n++ ? ",\"" : "\"");
        while (*p && *p != '/') *o++ = *p++;
        *o++ = '"';
    }
    *o++ = ']'; *o = 0;
    return s;
}
static char* jabs(char* o, const char* p)
{
    size_t n = strlen(root);
    if (strncmp(p, root, n) || (p[n] && p[n] != '/')) return strcpy(o, "[\"?\"]");
    return jpath(o, p + n);
}
struct ent { char p[64], t[32]; char k; int m; long z; ino_t ino; };
static struct ent ents[256]; static int nents;
static void walk(const char* rel, int depth)
{
    char b[512]; snprintf(b, sizeof b, "%s/%s", root, rel);
    DIR* d = opendir(b);
    if (!d) return;
    struct dirent* e;
    char kids[64][32]; int nk = 0;
    while ((e = readdir(d)) && nk < 64) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) snprintf(kids[nk++], 32, "%s", e->d_name);
    closedir(d);
    for (int i = 0; i < nk && nents < 256; ++i) {
        struct ent* x = &ents[nents++]; struct stat st;
        snprintf(x->p, sizeof x->p, "%s%s%s", rel, *rel ? "/" : "", kids[i]);
        snprintf(b, sizeof b, "%s/%s", root, x->p);
        lstat(b, &st);
        x->k = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISFIFO(st.st_mode) ? 'p' : S_ISLNK(st.st_mode) ? 'l' : '?';
        x->m = st.st_mode & 07777; x->z = x->k == 'f' ? st.st_size : 0; x->ino = st.st_ino; x->t[0] = 0;
        if (x->k == 'l') { ssize_t n = readlink(b, x->t, sizeof x->t - 1); x->t[n > 0 ? n : 0] = 0; }
        if (x->k == 'd' && depth < 6) { char r[64]; strcpy(r, x->p); walk(r, depth + 1); }
    }
}
static const char* listing(void)
{
    static char out[7000]; char* o = out, b1[256], b2[256];
    nents = 0; walk("", 0);
    *o++ = '[';
    for (int i = 0; i < nents && o - out < 6600; ++i) {
        int c = 0; while (ents[c].ino != ents[i].ino) ++c;
        o += sprintf(o, "%s{\"p\":%s,\"k\":\"%c\",\"m\":%d,\"z\":%ld,\"t\":%s,\"c\":%d}", i ? "," : "", jpath(b1, ents[i].p),
                     ents[i].k, ents[i].m, ents[i].z, jpath(b2, ents[i].t), c + 1);
    }
    *o++ = ']'; *o = 0;
    return out;
}
static int nfds(void) { int n = 0; for (int fd = 3; fd < 100; ++fd) n += fcntl(fd, F_GETFD) >= 0; return n; }
static int basefds;
static struct { char buf[512], path[512]; struct stat st; } U, U0;   /* memory of the program */
static void look(int withbufs)
{
    char c[512], j[512];
    if (!__real_getcwd(c, sizeof c)) strcpy(c, "?");
    tr("{\"e\":\"look\",\"cwd\":%s,\"fds\":%d,\"bufs\":%d,\"umem\":%d,\"fs\":%s}", jabs(j, c), nfds() - basefds, withbufs ? nbufs : -1, !withbufs || !memcmp(&U, &U0, sizeof U), listing());
}
static void sh_look(void) { look(1); }

/* ---- arguments ---- */
static int depth_of_cwd(void)
{
    char c[512]; size_t n = strlen(root);
    if (!__real_getcwd(c, sizeof c) || strncmp(c, root, n)) return -1;
    int d = 0; for (char* p = c + n; *p; ++p) d += *p == '/';
    return d;
}
/* a path as C string and JSON; returns 1 if absolute */
static int mkpath(uint64_t* s, char* p, char* j, int dironly, int nolink)
{
    static const char* const dirs[] = { "a", "b", "c", "a", "b", "l" };
    static const char* const any[] = { "f", "g", "x", "y", "z", "m", "n", "o", "a", "b", "c", "l", "f", "x", "y", "x" };
    int abs = rg(s) % 3 == 0, d = abs ? 0 : depth_of_cwd();
    if (d < 0) { abs = 1; d = 0; }
    char* o = p;
    if (abs) o += sprintf(o, "%s", root);
    char rel[128], *r = rel; *r = 0;
    int n = rg(s) % 3;
    if (rg(s) % 40 == 0 && !abs && !nolink) n = -1;      /* the empty path */
    for (int i = 0; i <= n; ++i) {
        const char* c; int k = rg(s) % 8;
        if (i < n || dironly) {
            if (k == 0) c = "."; else if (k <= 2 && d > 0) { c = ".."; --d; } else if (k == 3) c = any[rg(s) % 16]; else c = dirs[rg(s) % 6];
        } else if (k == 0 && d > 0) { c = ".."; --d; } else if (k == 1 && !nolink) c = "."; else c = any[rg(s) % 16];
        if (nolink && i == n && strchr("lmno", *c)) c = "f";
        if (strchr("abc", *c)) ++d;
        r += sprintf(r, "%s%s", i ? (rg(s) % 8 ? "/" : "//") : "", c);
    }
    if (abs) *o++ = '/';
    strcpy(o, rel);
    jpath(j, rel);
    return abs;
}
static int um; /* the umask; it does not concern the owner */
static int held[64], nheld; static void* hbuf[64]; static int nhbuf;   /* of this attempt */
static void sh_op(uint64_t* s, int i)
{
    char p[512], j[512], p2[512], j2[512]; struct stat st;
    if (i == 0) nheld = nhbuf = 0;
    if (rg(s) % 6 == 0) look(0);
    int m = 0600 | (rg(s) & 0177) | (rg(s) % 4 ? 0 : S_ISVTX), op = cwdmode ? (int[]){ 0, 0, 0, 1, 2, 2, 3, 4, 6, 10, 11 }[rg(s) % 11] : rg(s) % 13;
    switch (op) {
    case 0:
        if (cwdmode && rg(s) % 4) { /* mostly existing directories */
            static const char* const g[] = { "a", "b", "a/c", "", "l", "a/../b", "l/c" };
            const char* r = g[rg(s) % 7]; sprintf(p, "%s/%s", root, r); jpath(j, r);
            tr("{\"e\":\"call\",\"n\":\"chdir\",\"abs\":1,\"p\":%s}", j);
        } else {
            int a = mkpath(s, p, j, 1, 0);
            tr("{\"e\":\"call\",\"n\":\"chdir\",\"abs\":%d,\"p\":%s}", a, j);
        }
        chdir_tx(p); tr("{\"e\":\"ret\"}");
        break;
    case 1: {
        /* a file that is in use through another descriptor is refused */
        int k = nheld ? 3 : rg(s) % 4;
        tr("{\"e\":\"call\",\"n\":\"fchdir\",\"k\":%d,\"p\":%s}", k, k < 2 ? dirfdpath[k] : "[]");
        fchdir_tx(k < 3 ? dirfds[k] : 99); tr("{\"e\":\"ret\"}");
        break; }
    case 2: {
        int null = rg(s) & 1, len = strlen(root), size = null && (rg(s) & 3) ? 0 : (rg(s) & 3) ? (int)sizeof U.buf : len + rg(s) % 8;
        if (!null && rg(s) % 16 == 0) size = 0;
        tr("{\"e\":\"call\",\"n\":\"getcwd\",\"size\":%d,\"null\":%d}", size, null);
        char* r = getcwd_tx(null ? NULL : U.buf, size);
        tr("{\"e\":\"ret\",\"p\":%s}", r ? jabs(j, r) : "[\"0\"]");
        if (null && r) hbuf[nhbuf++] = r;
        break; }
    case 3: case 4: {
        int a = mkpath(s, p, j, 0, 0);
        tr("{\"e\":\"call\",\"n\":\"%s\",\"abs\":%d,\"p\":%s}", op == 3 ? "stat" : "lstat", a, j);
        op == 3 ? stat_tx(p, &U.st) : lstat_tx(p, &U.st);
        st = U.st;
        char k = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISFIFO(st.st_mode) ? 'p' : S_ISLNK(st.st_mode) ? 'l' : '?';
        tr("{\"e\":\"ret\",\"k\":\"%c\",\"m\":%d,\"z\":%ld,\"n\":%d}", k, st.st_mode & 07777, k == 'f' ? (long)st.st_size : 0l, k == 'd' ? 0 : (int)st.st_nlink);
        break; }
    case 5: {
        int a = mkpath(s, p, j, 0, 0);
        struct stat a1, a2; /* not the root of the scratch space, whose mode is not listed */
        if (!stat(p, &a1) && !stat(root, &a2) && a1.st_ino == a2.st_ino) m = 0600;
        tr("{\"e\":\"call\",\"n\":\"chmod\",\"abs\":%d,\"p\":%s,\"m\":%d}", a, j, m | 0100);
        chmod_tx(p, m | 0100); tr("{\"e\":\"ret\"}");
        break; }
    case 6: case 7: case 8: {
        int a = mkpath(s, p, j, 0, 0);
        const char* n = op == 6 ? "mkdir" : op == 7 ? "mkfifo" : "mknod";
        if (op == 6) m |= 0100;
        tr("{\"e\":\"call\",\"n\":\"%s\",\"abs\":%d,\"p\":%s,\"m\":%d}", n, a, j, m & ~um);
        op == 6 ? mkdir_tx(p, m) : op == 7 ? mkfifo_tx(p, m) : mknod_tx(p, S_IFREG | m, 0);
        tr("{\"e\":\"ret\"}");
        break; }
    case 9: {
        int a = mkpath(s, p, j, 0, 1), a2 = mkpath(s, p2, j2, 0, 0);
        tr("{\"e\":\"call\",\"n\":\"link\",\"abs\":%d,\"p\":%s,\"abs2\":%d,\"p2\":%s}", a, j, a2, j2);
        link_tx(p, p2); tr("{\"e\":\"ret\"}");
        break; }
    case 10: {
        int a = mkpath(s, p, j, 0, 0);
        tr("{\"e\":\"call\",\"n\":\"unlink\",\"abs\":%d,\"p\":%s}", a, j);
        unlink_tx(p); tr("{\"e\":\"ret\"}");
        break; }
    case 11: {
        int a = mkpath(s, p, j, 0, 0), cr = rg(s) & 1, ex = cr && (rg(s) & 1), trc = rg(s) % 4 == 0, wr = trc || (rg(s) & 1);
        tr("{\"e\":\"call\",\"n\":\"open\",\"abs\":%d,\"p\":%s,\"cr\":%d,\"ex\":%d,\"tr\":%d,\"wr\":%d,\"m\":%d}", a, j, cr, ex, trc, wr, m & ~um);
        int fd = open_tx(p, (wr ? O_RDWR : O_RDONLY) | O_NONBLOCK | (cr ? O_CREAT : 0) | (ex ? O_EXCL : 0) | (trc ? O_TRUNC : 0), m);
        tr("{\"e\":\"ret\"}");
        held[nheld++] = fd;
        break; }
    case 12: {
        int a = mkpath(s, p, j, 1, 0);
        if (!*p) { strcpy(p, "."); strcpy(j, "[\".\"]"); }
        tr("{\"e\":\"call\",\"n\":\"mkstemp\",\"abs\":%d,\"p\":%s}", a, j);
        strcat(p, "/tXXXXXX");
        store_tx(U.path, p, strlen(p) + 1);
        int fd = mkstemp_tx(U.path);
        load_tx(U.path, p, strlen(p) + 1);
        tr("{\"e\":\"ret\",\"name\":\"%s\"}", strrchr(p, '/') + 1);
        held[nheld++] = fd;
        break; }
    }
}
static int rmcb(const char* p, const struct stat* s, int t, struct FTW* f) { return remove(p); }
static void mkfile(const char* p, int n) { int fd = open(p, O_CREAT | O_RDWR | O_TRUNC, 0644); if (ftruncate(fd, n)) _exit(3); close(fd); }
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    cwdmode = !strcmp(argv[1], "cwd");
    tr_open(argv[5]); crash_install();
    char dir[] = "/tmp/verif-fs-XXXXXX";
    if (!mkdtemp(dir)) return 3;
    umask(0);
    sprintf(root, "%s/r", dir);
    char h[300]; sprintf(h, "%s/h", dir); mkfile(h, 1);
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        if (mkdir(root, 0700) || chdir(root)) return 3;
        umask(0);
        mkdir("a", 0700); mkdir("b", 0750); mkdir("a/c", 0711);
        mkfile("f", 11); mkfile("a/f", 12); mkfile("b/g", 13);
        if (symlink("a", "l") || symlink("../f", "a/m") || symlink("z", "n") || symlink("o", "o")) return 3;
        umask(um = (int[]){ 0, 022, 027, 077 }[rg(&s) % 4]);
        dirfds[0] = open("a", O_RDONLY); dirfds[1] = open("a/c", O_RDONLY); dirfds[2] = open("../h", O_RDONLY);
        basefds = nfds();
        tr("{\"e\":\"reset\",\"run\":%d,\"rootlen\":%d,\"fs\":%s}", i, (int)strlen(root), listing());
        picotm_libc_set_error_recovery(rg(&s) & 1 ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO);
        int ntx = 1 + rg(&s) % 4;
        for (int k = 0; k < ntx; ++k) {
            memset(&U, 0x20 + k, sizeof U); memcpy(&U0, &U, sizeof U);
            sh_plan(mix(s, k), 7); sh.looks = 1;
            sh_run();
            if (!sh_committed) nheld = nhbuf = 0;
            memcpy(&U0, &U, sizeof U); /* stays as the transaction has left it */
            look(1);
            for (int h = 0; h < nheld; ++h) close(held[h]);
            for (int h = 0; h < nhbuf; ++h) free(hbuf[h]);
            tr("{\"e\":\"drop\",\"fds\":%d,\"bufs\":%d}", nheld, nhbuf);
            nheld = nhbuf = 0;
        }
        for (int fd = 3; fd < 100; ++fd) close(fd);
        while (nbufs) for (int b = 0; b < ntracked; ++b) if (bufs[b]) { bufs[b] = NULL; --nbufs; }
        if (chdir(dir)) return 3;
        chmod(root, 0700);
        nftw(root, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    }
    tr_flush();
    if (chdir("/")) return 3;
    nftw(dir, rmcb, 16, FTW_DEPTH | FTW_PHYS);
    return 0;
}
