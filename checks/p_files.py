"""C19 ...: files and file descriptors."""
from lib import *

TRACE = """SPECIFICATION TraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def file_mc(ctx):
    ctx.model_check("TxFileMC", f"""SPECIFICATION MSpec
CONSTANTS
 Off = {scale("{0, 1, 3}", "{0, 1, 2, 4}")}
 Len_ = {scale("{1, 3}", "{1, 2, 4}")}
 MaxOps = 3
 Bad = "none"
INVARIANTS Results Disk Isolated View
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")

def c19(ctx):
    ctx.build("drv_file")
    file_mc(ctx)
    conc_shards(ctx, "drv_file", "rw", scale(2000, 40000), "TxFileTrace", TRACE, timeout=scale(200, 1500))

def c20(ctx):
    ctx.build("drv_file")
    file_mc(ctx)
    conc_shards(ctx, "drv_file", "abort", scale(2000, 40000), "TxFileTrace", TRACE, timeout=scale(200, 1500))

def c22(ctx):
    ctx.build("drv_file")
    ctx.build("drv_fdc")
    file_mc(ctx)
    ctx.model_check("TxFdCMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {{1, 2}}
 Fd = {{3, 4}}
 File = {scale("{0}", "{0, 1}")}
 MaxOps = {scale(3, 4)}
 Bad = "none"
INVARIANTS Stays Known Held Clean
PROPERTIES OneFile
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="20g")
    conc_shards(ctx, "drv_file", "fd", scale(2000, 40000), "TxFileTrace", TRACE, timeout=scale(200, 1500))
    conc_shards(ctx, "drv_fdc", "fd", scale(1600, 40000), "TxFdCTrace", TRACE + "CONSTANT Thread = {0, 1, 2, 3}\n", timeout=scale(200, 1500))

def c21(ctx):
    ctx.build("drv_filec")
    ctx.model_check("TxFileCMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {{1, 2}}
 RecSize = 2
 MaxOps = {scale(3, 5)}
 Bad = "none"
INVARIANTS Results Disk
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="20g")
    conc_shards(ctx, "drv_filec", "share", scale(2000, 60000), "TxFileCTrace", TRACE + "CONSTANT Thread = {0, 1, 2, 3}\n", timeout=scale(200, 1500))

def c23(ctx):
    ctx.build("drv_stream")
    ctx.model_check("TxStreamMC", f"""SPECIFICATION MSpec
CONSTANTS
 MaxOps = {scale(4, 5)}
 Bad = "none"
INVARIANTS Released Order Closed
CHECK_DEADLOCK FALSE
""", timeout=1800, heap="16g")
    conc_shards(ctx, "drv_stream", "rw", scale(3000, 60000), "TxStreamTrace", TRACE, timeout=scale(200, 1500))

CHECKS = {"C23": c23, "C19": c19, "C20": c20, "C21": c21, "C22": c22}
