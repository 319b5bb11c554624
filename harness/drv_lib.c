// FLAVOUR: plain
// WRAP: realloc
/* Building blocks of picotm-lib. usage: drv_lib lib SEED FIRST N OUT */
#include "common.h"
#include "picotm/picotm-lib-slist.h"
#include "picotm/picotm-lib-tab.h"
#include "picotm/picotm-lib-ptr.h"
#include "picotm/picotm-lib-ref.h"
#include "picotm/picotm-lib-array.h"

static size_t requested; static int armed, nfail; static bool watch, short_mem; /* tables grow differently once memory has been short */
void* __real_realloc(void*, size_t);
void* __wrap_realloc(void* p, size_t n)
{
    if (!watch) return __real_realloc(p, n);
    if (armed) { --armed; ++nfail; errno = ENOMEM; return NULL; }
    requested = n;
    /* new memory at a new address, so that stale pointers and missing bytes show */
    void* q = n ? malloc(n) : NULL;
    if (q && p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); }
    if (q || !n) free(p);
    return q;
}

/* ---------------- lists ---------------- */
enum { NI = 7, NL = 2 };
static struct item { int key; struct picotm_slist sl; } it[NI + 1];
static struct picotm_slist head[NL + 1];
static struct item* of(const struct picotm_slist* s) { return picotm_containerof(s, struct item, sl); }
/* item > 0, head < 0, other 0 */
static int id(const struct picotm_slist* s)
{
    for (int h = 1; h <= NL; ++h) if (s == &head[h]) return -h;
    for (int i = 1; i <= NI; ++i) if (s == &it[i].sl) return i;
    return 0;
}
static uint64_t cbs; static int seen[64], nseen, incs[64], want, bad; static char A, B;
static int cmpkey(struct picotm_slist* a, struct picotm_slist* b) { return of(a)->key - of(b)->key; }
static void see(const struct picotm_slist* s) { if (nseen < 60) seen[nseen++] = id(s); }
static size_t walk(struct picotm_slist* s)
{
    see(s);
    size_t n = rg(&cbs) % 5; /* 0 stops */
    if (n > 2) n = 1;
    if (!(rg(&cbs) % 16)) n = 20;
    incs[nseen - 1] = n;
    return nseen > 50 ? 0 : n;
}
static size_t walk1(struct picotm_slist* s, void* a) { if (a != &A) bad = 1; return walk(s); }
static size_t walk2(struct picotm_slist* s, void* a, void* b) { if (b != &B) bad = 1; return walk1(s, a); }
static _Bool find(const struct picotm_slist* s) { see(s); return nseen > 50 || of(s)->key == want; }
static _Bool find1(const struct picotm_slist* s, void* a) { if (a != &A) bad = 1; return find(s); }
static _Bool find2(const struct picotm_slist* s, void* a, void* b) { if (b != &B) bad = 1; return find1(s, a); }
static void clean(struct picotm_slist* s) { see(s); if (picotm_slist_is_enqueued(s)) bad = 1; if (nseen > 50) { tr("{\"e\":\"endless\"}"); tr_flush(); _exit(4); } }
static void clean1(struct picotm_slist* s, void* a) { if (a != &A) bad = 1; clean(s); }
static void clean2(struct picotm_slist* s, void* a, void* b) { if (b != &B) bad = 1; clean1(s, a); }
static const char* ints(const int* v, int n)
{
    static char ring[8][1024]; static int k; char* s = ring[k++ & 7]; char* o = s;
    *o++ = '[';
    for (int i = 0; i < n; ++i) o += sprintf(o, i ? ",%d" : "%d", v[i]);
    strcpy(o, "]");
    return s;
}
static int listlen(int h) { int n = 0; for (struct picotm_slist* s = head[h].next; s && s != &head[h] && n < 40; s = s->next) ++n; return n; }
static bool sorted(int h)
{
    for (struct picotm_slist* s = head[h].next; s != &head[h]; s = s->next)
        if (s->next != &head[h] && of(s)->key < of(s->next)->key) return false;
    return true;
}
static void list_look(void)
{
    int q[NL + 1][20], n[NL + 1], enq[NI], prev[NI], ends[2 * NL], emp[NL];
    for (int h = 1; h <= NL; ++h) {
        n[h] = 0;
        for (const struct picotm_slist* s = picotm_slist_begin(&head[h]); s != picotm_slist_end(&head[h]) && n[h] < 12; s = picotm_slist_next(s)) q[h][n[h]++] = id(s);
        struct picotm_slist *f = picotm_slist_front(&head[h]), *b = picotm_slist_back(&head[h]);
        ends[2 * h - 2] = f ? id(f) : 0; ends[2 * h - 1] = b ? id(b) : 0; emp[h - 1] = picotm_slist_is_empty(&head[h]);
    }
    for (int i = 1; i <= NI; ++i) { enq[i - 1] = picotm_slist_is_enqueued(&it[i].sl); prev[i - 1] = enq[i - 1] ? id(picotm_slist_prev(&it[i].sl)) : 0; }
    tr("{\"e\":\"lists\",\"q1\":%s,\"q2\":%s,\"enq\":%s,\"prev\":%s,\"ends\":%s,\"emp\":%s}", ints(q[1], n[1]), ints(q[2], n[2]), ints(enq, NI), ints(prev, NI), ints(ends, 2 * NL), ints(emp, NL));
}
static void list_op(uint64_t* s)
{
    int h = 1 + rg(s) % NL, x = 1 + rg(s) % NI, y = 1 + rg(s) % NI, k = rg(s) % 3;
    bool xe = it[x].sl.next, ye = it[y].sl.next;
    const struct picotm_slist* r;
    nseen = bad = 0; cbs = rg(s); want = rg(s) % 5;
    switch (rg(s) % 12) {
    case 0: if (xe) return; tr("{\"e\":\"front\",\"h\":%d,\"x\":%d}", h, x); picotm_slist_enqueue_front(&head[h], &it[x].sl); break;
    case 1: if (xe) return; tr("{\"e\":\"back\",\"h\":%d,\"x\":%d}", h, x); picotm_slist_enqueue_back(&head[h], &it[x].sl); break;
    case 2: if (xe || !ye) return; tr("{\"e\":\"before\",\"x\":%d,\"y\":%d}", x, y); picotm_slist_enqueue_before(&it[y].sl, &it[x].sl); break;
    case 3: if (xe || !ye) return; tr("{\"e\":\"after\",\"x\":%d,\"y\":%d}", x, y); picotm_slist_enqueue_after(&it[y].sl, &it[x].sl); break;
    case 4: case 5: case 6: if (xe || !sorted(h)) return; tr("{\"e\":\"sorted\",\"h\":%d,\"x\":%d}", h, x); picotm_slist_enqueue_sorted(&head[h], &it[x].sl, cmpkey); break;
    case 7: if (!xe) return; tr("{\"e\":\"dequeue\",\"x\":%d}", x); picotm_slist_dequeue(&it[x].sl); break;
    case 8: if (!listlen(h)) return; tr("{\"e\":\"dequeuefront\",\"h\":%d}", h); picotm_slist_dequeue_front(&head[h]); break;
    case 9:
        r = k == 0 ? picotm_slist_walk_0(&head[h], walk) : k == 1 ? picotm_slist_walk_1(&head[h], walk1, &A) : picotm_slist_walk_2(&head[h], walk2, &A, &B);
        tr("{\"e\":\"walk\",\"k\":%d,\"h\":%d,\"seen\":%s,\"inc\":%s,\"r\":%d,\"bad\":%d}", k, h, ints(seen, nseen), ints(incs, nseen), id(r), bad); break;
    case 10:
        r = k == 0 ? picotm_slist_find_0(&head[h], find) : k == 1 ? picotm_slist_find_1(&head[h], find1, &A) : picotm_slist_find_2(&head[h], find2, &A, &B);
        tr("{\"e\":\"find\",\"k\":%d,\"h\":%d,\"key\":%d,\"seen\":%s,\"r\":%d,\"bad\":%d}", k, h, want, ints(seen, nseen), id(r), bad); break;
    case 11:
        if (rg(s) % 3) return;
        if (k == 0) picotm_slist_cleanup_0(&head[h], clean); else if (k == 1) picotm_slist_cleanup_1(&head[h], clean1, &A); else picotm_slist_cleanup_2(&head[h], clean2, &A, &B);
        tr("{\"e\":\"cleanup\",\"k\":%d,\"h\":%d,\"seen\":%s,\"bad\":%d}", k, h, ints(seen, nseen), bad); break;
    }
    list_look();
}

/* ---------------- tables ---------------- */
static unsigned char* tab; static int tn, siz, tseen[512], tinc[512], tns, terr; static uint64_t tcb; static int tleft;
static const int SIZ[] = { 1, 2, 4, 8, 12, 24, 40 };
static void put(int i, int v) { for (int k = 0; k < siz; ++k) tab[i * siz + k] = v + k; }
static int get(int i) { int v = tab[i * siz]; for (int k = 0; k < siz; ++k) if (tab[i * siz + k] != (unsigned char)(v + k)) return -1; return v; }
static const char* elems(int n) { static int v[512]; for (int i = 0; i < n; ++i) v[i] = get(i); return ints(v, n); }
static size_t twalk(void* e, struct picotm_error* err)
{
    ptrdiff_t d = (unsigned char*)e - tab;
    tseen[tns] = d % siz ? -1 : (int)(d / siz) + 1;
    if (!tleft) bad = 1;
    int n = tleft ? 1 + rg(&tcb) % (tleft > 3 ? 3 : tleft) : 1;
    tleft -= tleft ? n : 0;
    tinc[tns++] = n;
    if (terr && tns == terr) picotm_error_set_errno(err, EIO);
    if (tns > 100) picotm_error_set_errno(err, ELOOP);
    return n;
}
static size_t twalk2(void* e, void* a, struct picotm_error* err) { if (a != &A) bad = 1; return twalk(e, err); }
static size_t twalk3(void* e, void* a, void* b, struct picotm_error* err) { if (b != &B) bad = 1; return twalk2(e, a, err); }
static int cmp(const void* a, const void* b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
static void tab_op(uint64_t* s)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER; int v[512];
    switch (rg(s) % 5) {
    case 0: case 1: {
        int n = rg(s) % 8 ? rg(s) % 12 : rg(s) % 60;
        armed = rg(s) % 8 ? 0 : 1 + rg(s) % 2; if (!short_mem) armed = 0; nfail = 0;
        unsigned char* o = tab;
        watch = true; unsigned char* p = picotm_tabresize(tab, tn, n, siz, &e); watch = false; armed = 0;
        int ok = !picotm_error_is_set(&e), keep = ok ? (n < tn ? n : tn) : tn;
        if (ok) tab = p;
        tr("{\"e\":\"resize\",\"n\":%d,\"siz\":%d,\"ok\":%d,\"err\":%d,\"failed\":%d,\"null\":%d,\"bytes\":%d,\"keep\":%s}", n, siz, ok, e.status == PICOTM_ERRNO && e.value.errno_hint == ENOMEM, nfail, !p,
           ok ? (int)requested : 0, ok && n && (!p || requested < (size_t)n * siz) ? "[]" : elems(keep));
        if (ok) {
            if (n && (!p || requested < (size_t)n * siz)) { tr_flush(); _exit(5); } /* rejected by the specification */
            tn = n;
            for (int i = 0; i < tn; ++i) put(i, v[i] = rg(s) % 200);
            tr("{\"e\":\"fill\",\"v\":%s}", ints(v, tn));
        }
        break; }
    case 2: case 3: {
        int k = rg(s) % 5; size_t r = 0; tns = bad = 0; tcb = rg(s); tleft = tn; terr = rg(s) % 4 ? 0 : 1 + rg(s) % (tn + 1);
        switch (k) {
        case 0: r = picotm_tabwalk_1(tab, tn, siz, twalk, &e); break;
        case 1: r = picotm_tabwalk_2(tab, tn, siz, twalk2, &A, &e); break;
        case 2: r = picotm_tabwalk_3(tab, tn, siz, twalk3, &A, &B, &e); break;
        case 3: r = picotm_tabrwalk_1(tab, tn, siz, twalk, &e); break;
        case 4: r = picotm_tabrwalk_2(tab, tn, siz, twalk2, &A, &e); break;
        }
        tr("{\"e\":\"twalk\",\"k\":%d,\"seen\":%s,\"inc\":%s,\"errat\":%d,\"err\":%d,\"r\":%d,\"bad\":%d}", k, ints(tseen, tns), ints(tinc, tns), terr,
           picotm_error_is_set(&e) ? e.value.errno_hint == EIO ? 1 : 2 : 0, (int)r, bad); break; }
    case 4: {
        int x = rg(s) % 5;
        for (int i = 0; i < tn; ++i) { x += rg(s) % 3 == 0 ? 0 : rg(s) % 3; put(i, v[i] = x); }
        tr("{\"e\":\"fill\",\"v\":%s}", ints(v, tn));
        int r = picotm_tabuniq(tab, tn, siz, cmp);
        tr("{\"e\":\"uniq\",\"r\":%d,\"v\":%s}", r, r < 0 || r > tn ? "[]" : elems(r));
        for (int i = 0; i < tn; ++i) put(i, v[i] = rg(s) % 200);
        tr("{\"e\":\"fill\",\"v\":%s}", ints(v, tn));
        break; }
    }
}

/* ---------------- errors, references, addresses ---------------- */
static struct picotm_error er; static const char* DESC[] = { NULL, "one", "two" };
static struct picotm_rwlock* LOCKS[] = { NULL, (void*)&A, (void*)&B };
static struct picotm_ref16 r16; static struct picotm_shared_ref16 sr16;
static void err_op(uint64_t* s)
{
    int v = rg(s) % 3;
    switch (rg(s) % 8) {
    case 0: tr("{\"e\":\"eset\",\"st\":1,\"v\":%d}", v); picotm_error_set_conflicting(&er, LOCKS[v]); break;
    case 1: tr("{\"e\":\"eset\",\"st\":2,\"v\":0}"); picotm_error_set_revocable(&er); break;
    case 2: v = rg(s) % 4; tr("{\"e\":\"eset\",\"st\":3,\"v\":%d}", v); picotm_error_set_error_code(&er, v); break;
    case 3: v = rg(s) % 130; tr("{\"e\":\"eset\",\"st\":4,\"v\":%d}", v); picotm_error_set_errno(&er, v); break;
    case 4: { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = 1 + rg(s) % 60; tr("{\"e\":\"eset\",\"st\":6,\"v\":%d}", si.si_signo); picotm_error_set_siginfo_t(&er, &si); break; }
    case 5: tr("{\"e\":\"emark\"}"); picotm_error_mark_as_non_recoverable(&er); break;
    case 6: tr("{\"e\":\"edesc\",\"d\":%d}", v); picotm_error_set_description(&er, DESC[v]); break;
    case 7: tr("{\"e\":\"eclear\"}"); picotm_error_clear(&er); break;
    }
    int d = -1; const char* t = picotm_error_get_description(&er);
    for (int i = 0; i < 3; ++i) if (t == DESC[i]) d = i;
    int val = 0;
    switch (er.status) {
    case PICOTM_CONFLICTING: val = er.value.conflicting_lock == LOCKS[0] ? 0 : er.value.conflicting_lock == LOCKS[1] ? 1 : er.value.conflicting_lock == LOCKS[2] ? 2 : -1; break;
    case PICOTM_ERROR_CODE: val = er.value.error_hint; break;
    case PICOTM_ERRNO: val = er.value.errno_hint; break;
    case PICOTM_SIGINFO_T: val = er.value.siginfo_t_info.si_signo; break;
    default: break;
    }
    tr("{\"e\":\"elook\",\"st\":%d,\"v\":%d,\"nr\":%d,\"d\":%d,\"set\":%d,\"conf\":%d,\"rev\":%d,\"iserr\":%d}", (int)er.status, val, er.is_non_recoverable, d,
       picotm_error_is_set(&er), picotm_error_is_conflicting(&er), picotm_error_is_revocable(&er), picotm_error_is_error(&er));
}
static int cnt[2];
static void ref_op(uint64_t* s)
{
    int k = rg(s) % 2, r;
    switch (rg(s) % 4) {
    case 0: if (rg(s) % 4) return; cnt[k] = rg(s) % 4; tr("{\"e\":\"rinit\",\"k\":%d,\"n\":%d}", k + 1, cnt[k]);
            if (k) picotm_ref_init(&sr16, cnt[k]); else picotm_ref_init(&r16, cnt[k]); break;
    case 1: case 2: r = k ? picotm_ref_up(&sr16) : picotm_ref_up(&r16); ++cnt[k]; tr("{\"e\":\"rup\",\"k\":%d,\"r\":%d}", k + 1, r); break;
    case 3: if (!cnt[k]) return; r = k ? picotm_ref_down(&sr16) : picotm_ref_down(&r16); --cnt[k]; tr("{\"e\":\"rdown\",\"k\":%d,\"r\":%d}", k + 1, r); break;
    }
    tr("{\"e\":\"rcount\",\"k\":%d,\"n\":%d}", k + 1, k ? picotm_ref_count(&sr16) : picotm_ref_count(&r16));
}
static void addr_op(uint64_t* s)
{
    static const int sh[] = { 0, 20, 32, 40, 47, 56 };
    int b = rg(s) % 6; uintptr_t base = b ? (1 + rg(s) % 100) << sh[b] : 0;
    int al = b ? 1 << rg(s) % 13 : 1 + rg(s) % 100; int a = rg(s) % 20000, a2 = rg(s) % 20000;
    tr("{\"e\":\"addr\",\"a\":%d,\"al\":%d,\"floor\":%ld,\"ceil\":%ld,\"pfloor\":%ld,\"pceil\":%ld,\"b\":%d,\"diff\":%ld}", a, al,
       (long)(picotm_address_floor(base + a, al) - base), (long)(picotm_address_ceil(base + a, al) - base),
       (long)((uintptr_t)picotm_ptr_floor((void*)(base + a), al) - base), (long)((uintptr_t)picotm_ptr_ceil((void*)(base + a), al) - base),
       a2, (long)picotm_ptr_diff((void*)(base + a2), (void*)(base + a)));
}
static void run(uint64_t seed)
{
    uint64_t s = mix(seed, 1);
    memset(it, 0x5a, sizeof it); memset(head, 0x5a, sizeof head); memset(&er, 0x5a, sizeof er);
    int keys[NI];
    for (int i = 1; i <= NI; ++i) { keys[i - 1] = it[i].key = rg(&s) % 5; if (i == 1) it[i].sl = (struct picotm_slist)PICOTM_SLIST_ITEM_INITIALIZER; else picotm_slist_init_item(&it[i].sl); }
    head[1] = (struct picotm_slist)PICOTM_SLIST_HEAD_INITIALIZER(&head[1]); picotm_slist_init_head(&head[2]);
    er = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    r16 = (struct picotm_ref16)PICOTM_REF_INITIALIZER(2); sr16 = (struct picotm_shared_ref16)PICOTM_SHARED_REF16_INITIALIZER(1);
    if (rg(&s) & 1) sr16 = (struct picotm_shared_ref16)PICOTM_SHARED_REF_INITIALIZER(1);
    cnt[0] = 2; cnt[1] = 1;
    tab = NULL; tn = 0; requested = 0; siz = SIZ[rg(&s) % 7];
    tr("{\"e\":\"keys\",\"k\":%s}", ints(keys, NI));
    int what = rg(&s) % 4, n = 10 + rg(&s) % 30;
    for (int i = 0; i < n; ++i)
        switch (rg(&s) % 3 ? what : rg(&s) % 4) {
        case 0: list_op(&s); break;
        case 1: tab_op(&s); break;
        case 2: err_op(&s); break;
        default: if (rg(&s) & 1) ref_op(&s); else addr_op(&s); break;
        }
    picotm_tabfree(tab);
    tr("{\"e\":\"end\"}");
    for (int i = 1; i <= NI; ++i) { if (it[i].sl.next) picotm_slist_dequeue(&it[i].sl); picotm_slist_uninit_item(&it[i].sl); }
    list_look();
    for (int h = 1; h <= NL; ++h) picotm_slist_uninit_head(&head[h]);
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    crash_install();
    tr_open(argv[5]);
    for (int i = first; i < first + n; ++i) {
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        short_mem = i - first >= n / 2;
        run(mix(seed, i));
    }
    tr_flush();
    return 0;
}
