/* Single-threaded transaction with a fault plan, used by the drivers of the libc, libm, cast and
 * arithmetic modules. A driver supplies sh_op() and sh_look(). Events:
 *   begin, call .../ret ... (driver), conflict, error, commit (end of the execution phase), apply, undo, finish,
 *   recover{st,v,sig}, restart, end */
#pragma once
#include "common.h"

static void sh_op(uint64_t* s, int i);     /* one operation */
static void sh_look(void);                 /* observations of the state outside of the transaction */

enum { PF_NONE, PF_CONFLICT, PF_ERROR, PF_REVOCABLE };
static struct sh {
    uint64_t seed; int nops, at, nconf, werr, prep, irrev, norestart, maxrec;   /* the plan */
    int conf, rec, prepd, tries, intx;                                         /* what has happened */
    int looks;
} sh;
static void (*sh_hook)(int);                /* called in prepare (1), apply (2) and recovery (3) */
static int sh_committed;                    /* the last attempt has been applied */

static void sh_begin_cb(void* d, struct picotm_error* e) { sh_committed = 0; tr("{\"e\":\"begin\",\"irr\":%d}", picotm_is_irrevocable()); }
static void sh_prepare_cb(void* d, int noundo, struct picotm_error* e)
{
    tr("{\"e\":\"commit\"}");
    if (sh_hook) sh_hook(1);
    if (sh.prep && !sh.prepd && !noundo) {
        sh.prepd = 1;
        tr("{\"e\":\"fault\",\"k\":%d}", sh.prep);
        if (sh.prep == PF_CONFLICT) picotm_error_set_conflicting(e, NULL);
        else if (sh.prep == PF_REVOCABLE) picotm_error_set_revocable(e);
        else picotm_error_set_errno(e, 123);
    }
}
static void sh_apply_cb(void* d, struct picotm_error* e) { sh_committed = 1; tr("{\"e\":\"apply\"}"); if (sh_hook) sh_hook(2); }
static void sh_undo_cb(void* d, struct picotm_error* e) { tr("{\"e\":\"undo\"}"); }
static void sh_finish_cb(void* d, struct picotm_error* e) { tr("{\"e\":\"finish\"}"); }
static const struct picotm_module_ops sh_ops = { sh_begin_cb, sh_prepare_cb, sh_apply_cb, sh_undo_cb, NULL, NULL, sh_finish_cb, NULL };

static void sh_register(void)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&sh_ops, NULL, &e);
}
/* plan with random faults; maxops >= 1 */
static void sh_plan(uint64_t seed, int maxops)
{
    uint64_t s = mix(seed, 77);
    memset(&sh, 0, sizeof sh);
    sh.seed = seed;
    sh.nops = 1 + rg(&s) % maxops;
    sh.at = rg(&s) % (sh.nops + 1);
    switch (rg(&s) % 8) {
    case 0: case 1: sh.nconf = 1 + rg(&s) % 2; break;
    case 2: sh.werr = 1; break;
    case 3: sh.prep = 1 + rg(&s) % 3; break;
    case 4: sh.irrev = 1; break;
    }
    sh.norestart = rg(&s) & 1;
    sh.maxrec = 1 + rg(&s) % 3;
}
static void sh_run(void)
{
    sh.intx = 1;
    picotm_begin
        uint64_t s = mix(sh.seed, 1 + sh.conf + 10 * sh.rec + 100 * sh.prepd + 1000 * (rg(&(uint64_t){sh.seed}) & 1) * sh.tries);
        sh.tries++;
        if (sh.looks) sh_look();
        for (int i = 0; i <= sh.nops; ++i) {
            if (i == sh.at) {
                if (sh.conf < sh.nconf && !picotm_is_irrevocable()) { sh.conf++; tr("{\"e\":\"conflict\"}"); picotm_resolve_conflict(NULL); }
                if (sh.werr && !sh.rec && !picotm_is_irrevocable()) { tr("{\"e\":\"error\"}"); picotm_recover_from_errno(123); }
                if (sh.irrev && !picotm_is_irrevocable()) { tr("{\"e\":\"irrev\"}"); picotm_irrevocable(); }
            }
            if (i == sh.nops) break;
            sh_op(&s, i);
        }
    picotm_commit
        sh.rec++;
        {
            int st = picotm_error_status(), v = -1, sg = 0;
            if (st == PICOTM_ERRNO) v = picotm_error_as_errno();
            else if (st == PICOTM_ERROR_CODE) v = picotm_error_as_error_code();
            else if (st == PICOTM_SIGINFO_T) sg = picotm_error_as_siginfo_t()->si_signo;
            tr("{\"e\":\"recover\",\"st\":%d,\"v\":%d,\"sig\":%d,\"nr\":%d,\"errno\":%d}", st, v, sg, picotm_error_is_non_recoverable(), errno);
        }
        if (sh_hook) sh_hook(3);
        if (!picotm_error_is_non_recoverable()) {
            if (sh.looks) sh_look();
            if (!sh.norestart && sh.rec < sh.maxrec) { tr("{\"e\":\"restart\"}"); picotm_restart(); }
        }
    picotm_end
    tr("{\"e\":\"end\"}");
    sh.intx = 0;
}
