"""C04, C09, C10, C33: locks, shared objects, tree maps, data attached to pointers."""
from lib import *

def tcfg(nt, **consts):
    c = "\n".join(f" {k} = {v}" for k, v in consts.items())
    return f"SPECIFICATION TraceSpec\nCONSTANTS\n Thread = {seqset(nt)}\n{c}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

def c04(ctx):
    ctx.build("drv_sync")
    ctx.model_check("RWLock", f"""SPECIFICATION Spec
CONSTANTS
 Thread = {seqset(scale(3, 4))}
 Lock = {{0}}
 Capacity = 2
INVARIANTS OneWriterOrReaders WithinCapacity
PROPERTIES Returns
CHECK_DEADLOCK FALSE
""")
    ctx.model_check("RWLockImpl", f"""SPECIFICATION ISpec
CONSTANTS
 Thread = {seqset(scale(3, 4))}
 Writer = 3
INVARIANTS Agree
PROPERTIES Refines
CHECK_DEADLOCK FALSE
""")
    rc, o, e = ctx.run([ctx.drv("drv_sync"), "probe", "1", "1", "1"])
    cap = int(o) if rc == 0 and o.strip() else 0
    if cap < 1:
        ctx.violation("an unlocked lock cannot be read-locked", "drv_sync probe\n" + o + e)
        return
    conc_shards(ctx, "drv_sync", "lock", scale(3200, 60000), "RWLockTrace", tcfg(6, Lock="{0,1}", Capacity=cap))
    conc_shards(ctx, "drv_sync", "lockn", scale(480, 4000), "RWLockTrace", tcfg(26, Lock="{0}", Capacity=cap))

def c09(ctx):
    ctx.build("drv_sync")
    ctx.model_check("SharedObj", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {seqset(scale(3, 4))}
 MaxRef = 2
INVARIANTS LiveWhenHeld CountRight
CHECK_DEADLOCK FALSE
""")
    conc_shards(ctx, "drv_sync", "ref", scale(6400, 100000), "SharedObjTrace", tcfg(5, MaxRef=3))

def c10(ctx):
    ctx.build("drv_sync")
    ctx.model_check("TreeMap", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {seqset(scale(2, 3))}
 Shared = TRUE
 Key = {{"a","b"}}
 MaxVal = {scale(4, 4)}
INVARIANTS Kept
PROPERTIES Stable
CHECK_DEADLOCK FALSE
""")
    conc_shards(ctx, "drv_sync", "map", scale(6400, 100000), "TreeMapTrace", tcfg(5, Shared="TRUE", Key="{1}", MaxVal=1))

def c33(ctx):
    ctx.build("drv_sync")
    ctx.model_check("PtrData", f"""SPECIFICATION Spec
CONSTANTS
 Thread = {{0,1}}
 Adr = {seqset(scale(1, 2))}
PROPERTIES LocalOnly
CHECK_DEADLOCK FALSE
""")
    conc_shards(ctx, "drv_sync", "ptr", scale(6400, 100000), "PtrDataTrace", tcfg(5, Adr=seqset(5)))

CHECKS = {"C04": c04, "C09": c09, "C10": c10, "C33": c33}
