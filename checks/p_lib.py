"""C35: building blocks that picotm-lib offers to modules."""
from lib import *

TRACE = """SPECIFICATION TraceSpec
CONSTANTS
 Items <- TItems
 Lists <- TLists
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def c35(ctx):
    ctx.build("drv_lib")
    ctx.build("drv_sync")
    for spec, inv, items, elems in (("ListSpec", "Once Linked", scale(3, 4), 0), ("TabSpec", "Fits", 1, scale(5, 9))):
        ctx.model_check("PicotmLibMC", f"""SPECIFICATION {spec}
CONSTANTS
 Items = {seqset(items, 1)}
 Lists = {{11, 12}}
 Keys = {{0, 1}}
 MaxElems = {elems}
 Vals = {{0, 1}}
INVARIANTS {inv}
PROPERTIES Refines
CHECK_DEADLOCK FALSE
""", timeout=1800)
    conc_shards(ctx, "drv_lib", "lib", scale(8000, 160000), "PicotmLibTrace", TRACE)
    ctx.model_check("PicotmSyncMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {seqset(scale(3, 4))}
 MaxCnt = 2
CONSTRAINT Small
INVARIANTS Agree Mutex Refines Lifetimes
CHECK_DEADLOCK FALSE
""", timeout=1800)
    conc_shards(ctx, "drv_sync", "spin", scale(4800, 80000), "PicotmSyncTrace", f"""SPECIFICATION TraceSpec
CONSTANTS
 Thread = {seqset(5)}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
""")

CHECKS = {"C35": c35}
