"""C06, C07, C08: the protocol between picotm and its modules."""
from lib import *

def pcfg(check):
    return f"""SPECIFICATION TraceSpec
CONSTANTS
 Thread = {seqset(4)}
 Check = {{{",".join('"%s"' % c for c in check)}}}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def mc(ctx):
    ctx.model_check("TxProtocolMC", f"""SPECIFICATION MSpec
CONSTANTS
 Thread = {{0}}
 Check = {{"proto","events","errors"}}
 MaxEv = {scale(1, 3)}
 MaxTry = {scale(2, 3)}
INVARIANTS Once Phases Order
PROPERTIES Complete Reverted Terminates
CHECK_DEADLOCK FALSE
""")

def proto(group):
    def fn(ctx):
        ctx.build("drv_proto")
        mc(ctx)
        conc_shards(ctx, "drv_proto", "enum", scale(6000, 42336), "TxProtocolTrace", pcfg([group]))
        conc_shards(ctx, "drv_proto", "rand", scale(2400, 40000), "TxProtocolTrace", pcfg([group]))
        conc_shards(ctx, "drv_proto", "fatal", scale(2400, 20000), "TxProtocolTrace", pcfg([group]))
    return fn

CHECKS = {"C06": proto("proto"), "C07": proto("events"), "C08": proto("errors")}
