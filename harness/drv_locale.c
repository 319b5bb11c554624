// FLAVOUR: plain
// WRAP: newlocale duplocale freelocale
/* Locales in transactions. usage: drv_locale locale SEED FIRST N OUT */
#include "txshell.h"
#include "picotm/locale.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"
#include <langinfo.h>
#include <locale.h>

static const int cat[6] = { LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC, LC_TIME };
static const int msk[6] = { LC_COLLATE_MASK, LC_CTYPE_MASK, LC_MESSAGES_MASK, LC_MONETARY_MASK, LC_NUMERIC_MASK, LC_TIME_MASK };
static const char* const cname[6] = { "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME" };

/* ---- live locale objects; a serial number for each ---- */
#define NL 256
static struct { locale_t p; int id; } live[NL]; static int serial, bad;
locale_t __real_newlocale(int, const char*, locale_t); locale_t __real_duplocale(locale_t); void __real_freelocale(locale_t);
static void add(locale_t p) { for (int i = 0; i < NL; ++i) if (!live[i].p) { live[i].p = p; live[i].id = ++serial; return; } bad = 1; }
static void del(locale_t p) { for (int i = 0; i < NL; ++i) if (live[i].p == p) { live[i].p = 0; return; } bad = 1; }
static int idof(locale_t p) { for (int i = 0; i < NL; ++i) if (live[i].p == p) return live[i].id; return p == LC_GLOBAL_LOCALE ? 0 : -2; }
locale_t __wrap_newlocale(int m, const char* n, locale_t b)
{
    locale_t p = __real_newlocale(m, n, b);
    if (p) { if (b) del(b); add(p); }
    else errno = ENOENT; /* glibc leaves errno alone if it already knows that there's no such locale */
    return p;
}
locale_t __wrap_duplocale(locale_t o) { locale_t p = __real_duplocale(o); if (p) add(p); return p; }
/* an object that has been released already is reported and not released again */
void __wrap_freelocale(locale_t o) { for (int i = 0; i < NL; ++i) if (live[i].p == o) { del(o); __real_freelocale(o); return; } bad = 1; }

static const char* names_of_string(char* o, const char* s)
{
    /* "X" or "LC_CTYPE=X;LC_NUMERIC=Y;..." */
    char* b = o; *o++ = '[';
    for (int c = 0; c < 6; ++c) {
        const char* v = s; size_t n;
        char key[32]; sprintf(key, "%s=", cname[c]);
        const char* k = s ? strstr(s, key) : NULL;
        if (!s) v = "?";
        if (k) { v = k + strlen(key); n = strcspn(v, ";"); } else n = strlen(v);
        o += sprintf(o, "%s\"%.*s\"", c ? "," : "", (int)n, v);
    }
    *o++ = ']'; *o = 0;
    return b;
}
static const char* names_of_obj(char* o, locale_t p)
{
    char* b = o; *o++ = '[';
    for (int c = 0; c < 6; ++c) o += sprintf(o, "%s\"%s\"", c ? "," : "", nl_langinfo_l(NL_LOCALE_NAME(cat[c]), p));
    *o++ = ']'; *o = 0;
    return b;
}
static void sh_look(void)
{
    char g[512], ob[8000], *o = ob, n[512];
    *o++ = '[';
    int k = 0;
    for (int i = 0; i < NL; ++i) if (live[i].p && o - ob < 7000) o += sprintf(o, "%s{\"id\":%d,\"v\":%s}", k++ ? "," : "", live[i].id, names_of_obj(n, live[i].p));
    if (bad) o += sprintf(o, "%s{\"id\":-1,\"v\":[]}", k++ ? "," : "");
    *o++ = ']'; *o = 0;
    tr("{\"e\":\"look\",\"glob\":%s,\"thr\":%d,\"objs\":%s}", names_of_string(g, setlocale(LC_ALL, NULL)), idof(uselocale((locale_t)0)), ob);
}
/* the objects that the program holds: of this attempt, of committed transactions */
static struct hold { locale_t p[32]; int n; locale_t used; } cur, base;

static int rmask(uint64_t* s, int* m, char* j, int all)
{
    /* the categories as a mask and as list of indices */
    char* o = j; *o++ = '['; *m = 0;
    if (all) *m = LC_ALL_MASK;
    int k = 0;
    for (int c = 0; c < 6; ++c) if (all || rg(s) % 3 == 0) { *m |= msk[c]; o += sprintf(o, "%s%d", k++ ? "," : "", c + 1); }
    *o++ = ']'; *o = 0;
    return k;
}
static void sh_op(uint64_t* s, int i)
{
    static const char* const nm[] = { "C", "C.utf8", "en_US.utf8", "en_US.utf8", "C.utf8" };
    if (i == 0) cur = base;
    char j[64], g[512]; int m;
    const char* name = rg(s) % 24 ? nm[rg(s) % 5] : "xx_YY";
    int c = rg(s) % 8;
    int k = cur.n ? (int)(rg(s) % cur.n) : -1;
    switch (rg(s) % 12) {
    case 0: case 1: case 2:
        if (c < 6) sprintf(j, "[%d]", c + 1); else strcpy(j, "[1,2,3,4,5,6]");
        tr("{\"e\":\"call\",\"n\":\"set\",\"m\":%s,\"v\":\"%s\"}", j, name);
        tr("{\"e\":\"ret\",\"v\":%s}", names_of_string(g, setlocale_tx(c < 6 ? cat[c] : LC_ALL, name)));
        break;
    case 3:
        if (c < 6) sprintf(j, "[%d]", c + 1); else strcpy(j, "[1,2,3,4,5,6]");
        tr("{\"e\":\"call\",\"n\":\"get\",\"m\":%s}", j);
        tr("{\"e\":\"ret\",\"v\":%s}", names_of_string(g, setlocale_tx(c < 6 ? cat[c] : LC_ALL, NULL)));
        break;
    case 4: {
        tr("{\"e\":\"call\",\"n\":\"conv\"}");
        struct lconv* lc = localeconv_tx();
        tr("{\"e\":\"ret\",\"v\":%d}", !strcmp(lc->int_curr_symbol, "USD "));
        break; }
    case 5: case 6: {
        if (cur.n >= 24) break;
        locale_t b = (locale_t)0;
        /* the base is consumed; it must not be in use */
        if (k >= 0 && cur.p[k] != cur.used && (rg(s) & 1)) { b = cur.p[k]; cur.p[k] = cur.p[--cur.n]; }
        int nc = rmask(s, &m, j, rg(s) % 3 == 0);
        if (!nc) { m = LC_TIME_MASK; strcpy(j, "[6]"); }
        if (!strcmp(name, "C")) name = "C.utf8"; /* objects of "C" only are a constant that nobody allocates */
        tr("{\"e\":\"call\",\"n\":\"new\",\"m\":%s,\"v\":\"%s\",\"o\":%d}", j, name, b ? idof(b) : 0);
        locale_t p = newlocale_tx(m, name, b);
        cur.p[cur.n++] = p;
        tr("{\"e\":\"ret\",\"id\":%d}", idof(p));
        break; }
    case 7: {
        if (cur.n >= 24) break;
        locale_t b = k >= 0 && (rg(s) & 3) ? cur.p[k] : LC_GLOBAL_LOCALE;
        tr("{\"e\":\"call\",\"n\":\"dup\",\"o\":%d}", idof(b));
        locale_t p = duplocale_tx(b);
        cur.p[cur.n++] = p;
        tr("{\"e\":\"ret\",\"id\":%d}", idof(p));
        break; }
    case 8: case 9: {
        if (k < 0 || cur.p[k] == cur.used) break;
        locale_t b = cur.p[k]; cur.p[k] = cur.p[--cur.n];
        tr("{\"e\":\"call\",\"n\":\"free\",\"o\":%d}", idof(b));
        freelocale_tx(b);
        tr("{\"e\":\"ret\",\"alive\":%d}", idof(b));
        break; }
    case 10: case 11: {
        locale_t b = rg(s) % 4 == 0 ? (locale_t)0 : k >= 0 && (rg(s) & 3) ? cur.p[k] : LC_GLOBAL_LOCALE;
        tr("{\"e\":\"call\",\"n\":\"use\",\"o\":%d}", b ? idof(b) : -1);
        locale_t p = uselocale_tx(b);
        if (b) cur.used = b;
        tr("{\"e\":\"ret\",\"id\":%d}", idof(p));
        break; }
    }
}
int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10); int first = atoi(argv[3]), n = atoi(argv[4]);
    tr_open(argv[5]); crash_install();
    setlocale(LC_ALL, "C");
    sh_register();
    for (int i = first; i < first + n; ++i) {
        uint64_t s = mix(seed, i);
        tr("{\"e\":\"reset\",\"run\":%d}", i);
        int ntx = 1 + rg(&s) % 5;
        base.n = 0; base.used = LC_GLOBAL_LOCALE; cur = base;
        for (int k = 0; k < ntx; ++k) {
            sh_plan(mix(s, k), 8); sh.looks = 1;
            sh_run();
            if (sh_committed) base = cur;
            sh_look();
        }
        uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C");
        for (int k = 0; k < NL; ++k) if (live[k].p) { __real_freelocale(live[k].p); live[k].p = 0; }
        bad = 0;
    }
    tr_flush();
    return 0;
}
