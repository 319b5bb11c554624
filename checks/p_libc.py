"""C18 ...: the libc module except for files."""
from lib import *

TRACE = """SPECIFICATION TraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def c18(ctx):
    ctx.build("drv_heap")
    ctx.model_check("TxHeapMC", f"""SPECIFICATION MSpec
CONSTANTS
 Block = {seqset(scale(3, 4))}
 MaxOps = {scale(4, 5)}
INVARIANTS Exact MemSafe
PROPERTIES Unchanged
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")
    conc_shards(ctx, "drv_heap", "heap", scale(3200, 80000), "TxHeapTrace", TRACE)

def c27(ctx):
    ctx.build("drv_errno")
    ctx.model_check("TxErrnoMC", f"""SPECIFICATION MSpec
CONSTANTS
 Vals = {seqset(scale(3, 5))}
INVARIANTS Restored
PROPERTIES Kept
CHECK_DEADLOCK FALSE
""")
    conc_shards(ctx, "drv_errno", "errno", scale(8000, 160000), "TxErrnoTrace", TRACE)

def c29(ctx):
    ctx.build("drv_fpu")
    ctx.model_check("TxFpuMC", f"""SPECIFICATION MSpec
CONSTANTS
 Flags = {scale('{"V", "O", "U"}', '{"V", "Z", "O", "U", "X"}')}
 Rnds = {{0, 1}}
 Outs = {{0, 1}}
INVARIANTS Restored
PROPERTIES Sticky NoStale Reported Kept
CHECK_DEADLOCK FALSE
""", timeout=1800)
    conc_shards(ctx, "drv_fpu", "fpu", scale(12000, 200000), "TxFpuTrace", TRACE)

def c32(ctx):
    ctx.build("drv_string")
    ctx.model_check("TxStringMC", f"""SPECIFICATION MSpec
CONSTANTS
 N = {scale(3, 4)}
 Bytes = {{0, 97, 98}}
INVARIANTS InRegion Restored Private Footprint
CHECK_DEADLOCK FALSE
""", timeout=1800)
    conc_shards(ctx, "drv_string", "string", scale(16000, 240000), "TxStringTrace", TRACE.replace("POSTCONDITION", "CONSTANT N = 80\nPOSTCONDITION"))

def fs_mc(ctx):
    ctx.model_check("TxFsMC", f"""SPECIFICATION MSpec
CONSTANTS
 Comps = {{"a", "x", "..", "l"}}
 MaxLen = 2
 MaxOps = {scale(2, 3)}
 MaxNodes = 7
INVARIANTS Tree CwdOk Restored Removed
PROPERTIES NotOthers Kept
CHECK_DEADLOCK FALSE
""", timeout=3000, heap="16g")

ENV = """SPECIFICATION TraceSpec
CONSTANTS
 Thread = {0, 1, 2, 3}
 Addr = {0, 1, 2, 3, 4, 5, 6}
 RetryLimit = 10
 Check = {"iso"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def c24(ctx):
    ctx.build("drv_fs")
    fs_mc(ctx)
    conc_shards(ctx, "drv_fs", "fs", scale(2400, 30000), "TxFsTrace", TRACE, timeout=scale(150, 1500))

def c25(ctx):
    ctx.build("drv_fs", "drv_env")
    fs_mc(ctx)
    conc_shards(ctx, "drv_fs", "cwd", scale(1600, 20000), "TxFsTrace", TRACE, timeout=scale(150, 1500))
    conc_shards(ctx, "drv_env", "cwd", scale(640, 16000), "TxMemTrace", ENV, timeout=scale(150, 1500))

def c26(ctx):
    ctx.build("drv_locale", "drv_env")
    ctx.model_check("TxLocaleMC", f"""SPECIFICATION MSpec
CONSTANTS
 Names = {{"C", "U"}}
 Cats = {{1, 2}}
 MaxOps = {scale(4, 6)}
 MaxObjs = {scale(2, 3)}
INVARIANTS Restored Alive
PROPERTIES Late
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")
    conc_shards(ctx, "drv_locale", "locale", scale(3200, 60000), "TxLocaleTrace", TRACE.replace("POSTCONDITION", "CONSTANTS\n Names <- TNames\n Cats <- TCats\nPOSTCONDITION"))
    conc_shards(ctx, "drv_env", "locale", scale(2400, 40000), "TxMemTrace", ENV)

def c28(ctx):
    ctx.build("drv_signal")
    ctx.model_check("TxSignalMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {{1, 2}}
 Sig = {scale("{1}", "{1, 2}")}
 Cell = {{1}}
 Home <- MCHome
 MaxOps = {scale(6, 7)}
 Bad = "none"
INVARIANTS Decided Called Alone Given
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")
    conc_shards(ctx, "drv_signal", "sig", scale(3000, 60000), "TxSignalTrace", TRACE + """CONSTANTS
 Thread = {1, 2}
 Sig <- Sigs
 Cell = {1, 2, 3, 4}
 Home <- Homes
""", timeout=scale(300, 1500))

def c34(ctx):
    ctx.build("drv_exit")
    ctx.model_check("TxExitMC", f"""SPECIFICATION MSpec
CONSTANTS
 Cell = {{1}}
 File = {{1}}
 Vals = {{0, 1}}
 Hooks <- MCHooks
 MaxOps = {scale(5, 8)}
INVARIANTS NothingLost HandlersRun NotInside
PROPERTIES AtOnce
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")
    conc_shards(ctx, "drv_exit", "exit", scale(4000, 80000), "TxExitTrace", TRACE + """CONSTANTS
 Cell = {1, 2, 3, 4}
 File = {1, 2}
""")

CHECKS = {"C34": c34, "C28": c28, "C18": c18, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C29": c29, "C32": c32}
