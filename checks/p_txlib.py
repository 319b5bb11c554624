"""C13-C17: transactional containers."""
from lib import *

CFG = """SPECIFICATION TraceSpec
CONSTANTS
 Thread = {0,1,2,3}
 Cont = {0,1,2,3,4,5,6,7}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def impl_mc(ctx, k, ops=None):
    ctx.model_check("TxLibImpl", f"""SPECIFICATION ISpec
CONSTANTS
 Thread = {{0,1}}
 Cont = {{{k}}}
 K = {k}
 Entry = {seqset(scale(3, 4))}
 MaxOps = {ops or scale(3, 4)}
 Txs = 1
 Fill = {scale(1, 2)}
INVARIANTS ResultsAllowed Agreement LocalEmpty Exclusive
PROPERTIES Ends
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")

def mk(kind, work):
    def fn(ctx):
        ctx.build("drv_txlib")
        if kind in (0, 1, 2):
            impl_mc(ctx, kind)
        for w, q, t in work:
            conc_shards(ctx, "drv_txlib", w, scale(q, t), "TxLibTrace", CFG)
    return fn

def c17(ctx):
    ctx.build("drv_txlib")
    for k in (0, 1, 2):
        impl_mc(ctx, k, scale(2, 4))
    conc_shards(ctx, "drv_txlib", "conc", scale(3200, 60000), "TxLibTrace", CFG)

CHECKS = {"C13": mk(0, [("list", 2400, 60000)]), "C14": mk(1, [("queue", 2400, 60000)]), "C15": mk(2, [("stack", 2400, 60000)]),
          "C16": mk(3, [("mset", 2400, 60000)]), "C17": c17}
