------------------------------ MODULE TxFdCMC ------------------------------
(* Bounded exploration of TxFdC: a descriptor denotes the same file for as long as a transaction uses it, *)
(* committed descriptors stay until somebody commits their closing, and nobody starts using them after that. *)
EXTENDS TxFdC
CONSTANTS Fd, File, MaxOps, Bad
VARIABLES ops, commits      \* operations done; descriptors that committed transactions have opened and not closed
mvars == <<vars, ops, commits>>
MInit == /\ Init /\ ops = [t \in Thread |-> 0] /\ commits = {}
Count(t) == ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1]
Keep == UNCHANGED <<ops, commits>>
(* what an implementation without references would do *)
Hasty(x) == /\ Bad = "hasty" /\ x \in closing
            /\ obj' = Without(obj, {x}) /\ closing' = closing \ {x} /\ ended' = ended \ {x}
            /\ UNCHANGED <<ph, opened, closed, uses, dead, pend, err>>
(* openings and closings of descriptors exclude each other *)
Writer(t) == \A u \in Thread \ {t} : opened[u] = {} /\ closed[u] = {} /\ dead[u] = {}
MNext ==
  \E t \in Thread :
  \/ Begin(t) /\ Keep
  \/ /\ Count(t) /\ UNCHANGED commits
     /\ \/ \E f \in File : Call(t, "open", -1, f)
        \/ \E n \in {"dup", "close", "stat"}, x \in Fd : x \notin closed[t] /\ Call(t, n, x, -1)
  \/ /\ pend[t].n \in {"open", "dup"} /\ Writer(t) /\ (\E x \in Fd, f \in File : Ret(t, x, f)) /\ Keep
  \/ /\ pend[t].n \in {"close", "stat"} /\ (pend[t].n = "close" => Writer(t))
     /\ (\E f \in File : Ret(t, pend[t].fd, f)) /\ Keep
  \/ Request(t, TRUE) /\ ~err[t] /\ Keep
  \/ Apply(t) /\ commits' = (commits \cup opened[t]) \ closed[t] /\ UNCHANGED ops
  \/ Undo(t) /\ Keep
  \/ (\E v \in {200, EBADF} : Recover(t, v)) /\ Keep
  \/ Again(t) /\ Keep
  \/ End(t) /\ Keep
  \/ (\E x \in Fd : Remove(x) \/ Unopen(x) \/ Hasty(x)) /\ Keep
MSpec == MInit /\ [][MNext]_mvars
Stays == commits \subseteq DOMAIN obj
Known == closing \subseteq DOMAIN obj
Held == \A t \in Thread : uses[t] \subseteq DOMAIN obj
OneFile == [][\A t \in Thread : \A x \in uses[t] \cap uses'[t] : x \in DOMAIN obj' /\ obj'[x] = obj[x]]_mvars
Clean == (\A t \in Thread : ph[t] = "out") => DOMAIN obj \ closing = commits
=============================================================================
