// FLAVOUR: plain
// WRAP: malloc calloc realloc posix_memalign aligned_alloc free
/* The transactional heap. usage: drv_heap heap SEED FIRST N OUT */
#define HUGE_MALLOC 1
#include "txshell.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/picotm-tm.h"
#include <malloc.h>

#define NB 200
static struct { void* p; int size; int live; } B[NB];  /* live: 1 allocated, 0 unused; as the program sees it after the last end */
static int nb;
static int quarantine, armed, failed;
static void* Q[NB]; static int nq;

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void __real_free(void*);
static int fail(void) { if (armed && !--armed) { failed = 1; tr("{\"e\":\"nomem\"}"); errno = ENOMEM; return 1; } return 0; }
void* __wrap_malloc(size_t n) { void* p = fail() ? NULL : __real_malloc(n); if (p && n < 1 << 20) memset(p, 0xa5, malloc_usable_size(p)); return p; }
void* __wrap_calloc(size_t m, size_t n) { return fail() ? NULL : __real_calloc(m, n); }
void* __wrap_realloc(void* p, size_t n) { return fail() ? NULL : __real_realloc(p, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (fail()) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (!r && n < 1 << 20) memset(*p, 0xa5, malloc_usable_size(*p)); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { return fail() ? NULL : __real_aligned_alloc(a, n); }
void __wrap_free(void* p)
{
    for (int i = nb; p && i-- > 0;)
        if (B[i].p == p) {
            tr("{\"e\":\"sysfree\",\"id\":%d}", i);
            if (quarantine) { Q[nq++] = p; return; }
            B[i].p = NULL;
            break;
        }
    __real_free(p);
}
/* the run's view inside of the transaction: 0 free/unknown, 1 allocated */
static unsigned char st[NB], pos[NB];

static int add(void* p, int size) { B[nb].p = p; B[nb].size = size; st[nb] = 1; return nb++; }
static int pickb(uint64_t* s)
{
    int c[NB], n = 0;
    for (int i = 0; i < nb; ++i) if (st[i] == 1) c[n++] = i;
    return n ? c[rg(s) % n] : -1;
}
static int tm;
static void ret(const char* op, int from, void* p, size_t size, size_t align)
{
    armed = 0;
    int id = p ? add(p, (int)size) : -1;
    tr("{\"e\":\"alloc\",\"op\":\"%s\",\"from\":%d,\"id\":%d,\"n\":%d,\"fits\":%d,\"algn\":%d,\"b\":%s}", op, from, id, (int)size,
       p ? malloc_usable_size(p) >= size : 1, p ? (uintptr_t)p % align == 0 : 1, p ? tr_bytes(p, size) : "[]");
}
static void sh_op(uint64_t* s, int i)
{
    if (i == 0) { memcpy(st, pos, sizeof st); for (int k = 0; k < nb; ++k) if (!B[k].p) st[k] = 0; }
    static const int sizes[] = { 0, 1, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 40 };
    static const int al[] = { 8, 16, 32, 64, 256 };
    size_t n = sizes[rg(s) % 13], a = al[rg(s) % 5];
    int x = pickb(s), id;
    void* p;
    if (nb > NB - 20) return;
    if (rg(s) % 24 == 0) armed = 1 + rg(s) % 2;
    switch (rg(s) % 16) {
    case 0: case 1: tr("{\"e\":\"call\",\"op\":\"malloc\"}"); p = malloc_tx(n); ret("malloc", -1, p, n, 16); break;
    case 2: { size_t m = rg(s) % 4; tr("{\"e\":\"call\",\"op\":\"calloc\"}"); n = sizes[rg(s) % 8]; p = calloc_tx(m, n); ret("calloc", -1, p, m * n, 16); break; }
    case 3: { tr("{\"e\":\"call\",\"op\":\"memalign\"}");
        static union { void* p; char c[16]; } u[2]; int k = rg(s) & 1;
        u[k].p = rg(s) & 1 ? NULL : (void*)(uintptr_t)8;
        if (rg(s) & 1) posix_memalign_tx(&u[k].p, a, n); else posix_memalign_tm(&u[k].p, a, n);
        ret("memalign", -1, u[k].p, n, a); break; }
    case 4: case 5: {
        if (rg(s) % 8 == 0) x = -1;
        tr("{\"e\":\"call\",\"op\":\"realloc\"}");
        void* q = x < 0 ? NULL : B[x].p;
        if (x >= 0) st[x] = 0;
        if (x >= 0) n = rg(s) % 8 ? n : 0;
        if (rg(s) & 1) p = realloc_tx(q, n);
        else { if (q && B[x].size) privatize_tx(q, B[x].size, PICOTM_TM_PRIVATIZE_LOADSTORE); p = realloc_tm(q, n); }
        ret("realloc", x, p, n, 8); break; }
    case 6: case 7: case 8:
        if (x < 0) return;
        armed = 0;
        tr("{\"e\":\"call\",\"op\":\"free\"}"); st[x] = 0;
        if (rg(s) & 1) free_tx(B[x].p); else free_tm(B[x].p);
        tr("{\"e\":\"free\",\"id\":%d}", x); break;
    case 9: if (rg(s) & 1) { armed = 0; tr("{\"e\":\"call\",\"op\":\"free\"}"); if (rg(s) & 1) free_tx(NULL); else free_tm(NULL); tr("{\"e\":\"free\",\"id\":-1}"); return; }
        /* fall through */
    case 10: { /* duplicate a string stored in a block */
        if (x < 0 || B[x].size < 2) return;
        armed = 0;
        char b[64]; int len = rg(s) % B[x].size;
        for (int k = 0; k < len; ++k) b[k] = 1 + rg(s) % 255;
        b[len] = 0;
        tr("{\"e\":\"call\",\"op\":\"store\"}"); store_tx(B[x].p, b, len + 1); tr("{\"e\":\"store\",\"id\":%d,\"o\":0,\"b\":%s}", x, tr_bytes(b, len + 1));
        tr("{\"e\":\"call\",\"op\":\"strdup\"}");
        int k = rg(s) % 2, l = len + 1;
        if (k) p = strdup_tx(B[x].p);
        else { size_t m = rg(s) % (len + 2); p = strndup_tx(B[x].p, m); if (m < len) l = m + 1; }
        ret("strdup", x, p, l, 8); break; }
    case 11: /* impossible sizes */
        if (rg(s) % 3 == 0) {
            static const size_t big[] = { ~0ul, ~0ul - 6, (1ul << 63) + 1, 5ul << 30, (1ul << 32) + 8, ~0ul / 2 };
            size_t z = big[rg(s) % 6]; int k = rg(s) % 3;
            armed = 0;
            tr("{\"e\":\"call\",\"op\":\"big\"}"); tr("{\"e\":\"nomem\"}");
            if (k == 0) p = malloc_tx(z);
            else if (k == 1) { static void* u; u = NULL; posix_memalign_tx(&u, 64, z); p = u; }
            else { z = (1ul << 33) + 2; p = calloc_tx(1ul << 31, z); z = ~0ul; /* overflows to 2^32 */ }
            int fits = malloc_usable_size(p) >= z;
            id = add(p, 0); st[id] = 2; /* too big for free_tx() */
            tr("{\"e\":\"alloc\",\"op\":\"malloc\",\"from\":-1,\"id\":%d,\"n\":0,\"fits\":%d,\"algn\":1,\"b\":[]}", id, fits);
            break;
        }
        /* fall through */
    case 12: case 13: {
        if (x < 0 || !B[x].size) return;
        armed = 0;
        unsigned char b[64]; int o = rg(s) % B[x].size, l = 1 + rg(s) % (B[x].size - o);
        for (int k = 0; k < l; ++k) b[k] = rg(s);
        tr("{\"e\":\"call\",\"op\":\"store\"}"); store_tx((char*)B[x].p + o, b, l);
        tr("{\"e\":\"store\",\"id\":%d,\"o\":%d,\"b\":%s}", x, o, tr_bytes(b, l)); break; }
    default: {
        if (x < 0 || !B[x].size) return;
        armed = 0;
        unsigned char b[64]; int o = rg(s) % B[x].size, l = 1 + rg(s) % (B[x].size - o);
        tr("{\"e\":\"call\",\"op\":\"load\"}"); load_tx((char*)B[x].p + o, b, l);
        tr("{\"e\":\"load\",\"id\":%d,\"o\":%d,\"b\":%s}", x, o, tr_bytes(b, l)); break; }
    }
    armed = 0;
}
static void sh_look(void)
{
    armed = 0;
    for (int i = 0; i < nb; ++i)
        if (pos[i] && B[i].p) tr("{\"e\":\"look\",\"id\":%d,\"b\":%s}", i, tr_bytes(B[i].p, B[i].size));
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        nb = nq = 0; memset(B, 0, sizeof B); memset(pos, 0, sizeof pos);
        quarantine = rg(&s) & 1;
        int ntx = 1 + rg(&s) % 5;
        for (int k = 0; k < ntx; ++k) {
            if (rg(&s) & 1 || !k) { /* an ordinary allocation */
                int size = rg(&s) % 40; unsigned char* p = malloc(size);
                for (int j = 0; j < size; ++j) p[j] = rg(&s);
                int id = add(p, size); pos[id] = 1;
                tr("{\"e\":\"ext\",\"id\":%d,\"b\":%s}", id, tr_bytes(p, size));
            }
            memcpy(st, pos, sizeof st);
            sh_plan(mix(s, k), 10); sh.looks = 1;
            tm = rg(&s) & 1;
            sh_run();
            if (!sh_committed) memcpy(st, pos, sizeof st);
            memcpy(pos, st, sizeof pos);
            for (int j = 0; j < nb; ++j) { if (!B[j].p) pos[j] = 0; }
            tr("{\"e\":\"sync\"}");
            sh_look();
        }
        int m = nb; nb = 0;
        for (int j = 0; j < m; ++j) {
            int inq = 0;
            for (int k = 0; k < nq; ++k) inq |= Q[k] == B[j].p;
            if (B[j].p && !inq) __real_free(B[j].p);
        }
        for (int k = 0; k < nq; ++k) { int dup = 0; for (int l = 0; l < k; ++l) dup |= Q[l] == Q[k]; if (!dup) __real_free(Q[k]); }
    }
    tr_flush();
    return 0;
}
