------------------------------ MODULE TxFsMC ------------------------------
EXTENDS TxFs, TLC
CONSTANTS Comps, MaxLen, MaxOps, MaxNodes
VARIABLE n, log     \* operations so far; nodes that the current attempt has created exclusively
mvars == <<vars, n, log>>
Paths == UNION {[1..i -> Comps] : i \in 0..MaxLen}
MInit == /\ names = (<<>> :> 1 @@ <<"a">> :> 2 @@ <<"f">> :> 3 @@ <<"l">> :> 4)
         /\ node = (1 :> [k |-> "d", m |-> 448, z |-> 0, t |-> <<>>] @@ 2 :> [k |-> "d", m |-> 448, z |-> 0, t |-> <<>>]
                    @@ 3 :> [k |-> "f", m |-> 420, z |-> 11, t |-> <<>>] @@ 4 :> [k |-> "l", m |-> 511, z |-> 0, t |-> <<"a">>])
         /\ cwd = <<>> /\ cwd0 = <<>> /\ fresh = {} /\ fds = 0 /\ fds0 = 0 /\ held = 0 /\ held0 = 0
         /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle" /\ n = 0 /\ log = {}
Outcomes(abs, p) ==
  {DoChdir(abs, p), DoStat(abs, p, TRUE), DoStat(abs, p, FALSE), DoChmod(abs, p, 256), DoMk(abs, p, "d", 448), DoMk(abs, p, "p", 384),
   DoUnlink(abs, p), DoLink(FALSE, <<"f">>, abs, p), DoOpen(abs, p, TRUE, TRUE, FALSE, TRUE, 384),
   DoOpen(abs, p, TRUE, FALSE, FALSE, TRUE, 384), DoOpen(abs, p, FALSE, FALSE, FALSE, FALSE, 384),
   DoMkstemp(abs, p, "t"), DoGetcwd(3 + 2 * Len(p), TRUE, 2)}
Op == /\ phase = "exec" /\ n < MaxOps /\ Cardinality(DOMAIN node) < MaxNodes /\ n' = n + 1
      /\ \E abs \in BOOLEAN, p \in Paths : \E x \in Outcomes(abs, p) :
           IF x.r = 0
           THEN /\ names' = x.names /\ node' = x.node /\ cwd' = x.cwd /\ fresh' = x.fresh /\ fds' = fds + x.nfd /\ held' = held + x.buf
                /\ log' = log \cup {q[2] : q \in x.fresh \ fresh}
                /\ UNCHANGED <<cwd0, fds0, held0, irr, pend, expect, phase>>
           ELSE /\ expect' = x.e /\ phase' = "failed" /\ UNCHANGED <<names, node, cwd, cwd0, fresh, fds, fds0, held, held0, irr, pend, log>>
Failed == phase = "failed" /\ phase' = "fail" /\ UNCHANGED <<n, log>> /\ Keep
MNext == \/ Op \/ Failed
         \/ (\E i \in BOOLEAN : Begin(i)) /\ log' = {} /\ UNCHANGED n
         \/ (Stop \/ Fault \/ Commit \/ Apply \/ Undo(0) \/ Finish \/ Restart \/ End \/ Recover(0)) /\ UNCHANGED <<n, log>>
MSpec == MInit /\ [][MNext]_mvars
(* the name space is a tree and the working directory is in it *)
Tree == \A q \in DOMAIN names : q # <<>> => /\ Front1(q) \in DOMAIN names
                                            /\ node[names[Front1(q)]].k = "d"
CwdOk == cwd \in DOMAIN names /\ node[names[cwd]].k = "d"
Restored == (phase \in {"undone", "recovery", "restart"}) => cwd = cwd0 /\ fds = fds0 /\ held = held0
(* nothing that a rolled-back attempt created exclusively is left at its name *)
Removed == (phase \in {"undone", "recovery", "restart"}) => \A q \in DOMAIN names : names[q] \in log => NLink(names[q]) >= 1 /\ fresh = {}
(* files that other names refer to survive *)
NotOthers == [][phase' = "undo" => \A q \in DOMAIN names : names[q] \notin log => q \in DOMAIN names' /\ names'[q] = names[q]]_mvars
Kept == [][(phase \in {"commit", "apply", "done"} /\ phase' # "fail") => cwd' = cwd /\ names' = names]_mvars
=============================================================================
