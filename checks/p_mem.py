"""C01, C02, C03, C05, C11, C12: shared memory and the transaction system around it."""
from lib import *

def memcfg(check, limit=10):
    return f"""SPECIFICATION TraceSpec
CONSTANTS
 Thread = {seqset(4)}
 Addr = {seqset(40)}
 RetryLimit = {limit}
 Check = {{{",".join('"%s"' % c for c in check)}}}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def mem_mc(ctx):
    """The specification itself: every interleaving of two threads over two bytes is serializable."""
    ctx.model_check("TxMemMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {{0,1}}
 Addr = {{0,1}}
 RetryLimit = {scale(1, 2)}
 Check = {{"iso","excl","retry"}}
 Value = {{0,1}}
 Txs = 1
INVARIANTS Serializable Alone Bounded LastTryIrr
CONSTRAINT Limit
CHECK_DEADLOCK FALSE
""")

def c01(ctx):
    ctx.build("drv_conc")
    mem_mc(ctx)
    conc_shards(ctx, "drv_conc", "mem", scale(4000, 60000), "TxMemTrace", memcfg(["iso"]))
    conc_shards(ctx, "drv_conc", "irr", scale(800, 10000), "TxMemTrace", memcfg(["iso"]))

def c03(ctx):
    ctx.build("drv_conc")
    mem_mc(ctx)
    conc_shards(ctx, "drv_conc", "irr", scale(3200, 60000), "TxMemTrace", memcfg(["excl"]))
    conc_shards(ctx, "drv_conc", "conf", scale(1600, 20000), "TxMemTrace", memcfg(["excl"]))

def c05(ctx):
    ctx.build("drv_conc")
    mem_mc(ctx)
    rc, o, e = ctx.run([ctx.drv("drv_conc"), "probe"])
    limit = int(o) if rc == 0 and o.strip() else -1
    if limit < 0:
        ctx.violation("a transaction that always meets a conflict never becomes irrevocable", "drv_conc probe\n" + o + e)
        return
    conc_shards(ctx, "drv_conc", "conf", scale(3200, 40000), "TxMemTrace", memcfg(["retry"], limit))
    conc_shards(ctx, "drv_conc", "irr", scale(800, 20000), "TxMemTrace", memcfg(["retry"], limit))
    conc_shards(ctx, "drv_conc", "mem", scale(800, 20000), "TxMemTrace", memcfg(["retry"], limit))

CHECKS = {"C01": c01, "C03": c03, "C05": c05}

def seq_check(pid, groups, work):
    def fn(ctx):
        ctx.build("drv_tm")
        ctx.model_check("TmSeqMC", f"""SPECIFICATION MSpec
CONSTANTS
 Addr = {seqset(scale(2, 3))}
 Check = {{"seq","undo","priv"}}
 Value = {{0,1}}
 MaxOps = {scale(6, 6)}
INVARIANTS TypeOK ViewExact
PROPERTIES CommitExact AbortClean
CHECK_DEADLOCK FALSE
""")
        cfg = f"""SPECIFICATION TraceSpec
CONSTANTS
 Addr = {seqset(48)}
 Check = {{{",".join('"%s"' % c for c in groups)}}}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
        for w, q, t in work:
            conc_shards(ctx, "drv_tm", w, scale(q, t), "TmSeqTrace", cfg)
    return fn

CHECKS["C11"] = seq_check("C11", ["seq"], [("seq", 4000, 80000), ("priv", 1600, 20000)])
CHECKS["C02"] = seq_check("C02", ["undo"], [("undo", 4800, 80000)])
CHECKS["C12"] = seq_check("C12", ["priv"], [("priv", 4800, 80000)])
