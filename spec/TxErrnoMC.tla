----------------------------- MODULE TxErrnoMC -----------------------------
EXTENDS TxErrno
CONSTANT Vals
VARIABLE start   \* errno before the transaction's current attempt
MInit == Init /\ start = 0
MNext == \/ \E v \in Vals : Set(v) /\ UNCHANGED start
         \/ Begin /\ start' = cur
         \/ \E v \in Vals : Raw(v) /\ start' = v
         \/ (Call \/ Fail \/ Commit \/ Apply \/ Undo \/ (Finish /\ UNCHANGED <<cur, saved, ops>>) \/ Restart \/ End) /\ UNCHANGED start
         \/ \E v \in Vals : (Ret(v) \/ Recover(v)) /\ UNCHANGED start
MSpec == MInit /\ [][MNext]_<<vars, start>>
Restored == (phase \in {"undone", "recovery", "restart"}) => cur = start
Kept == [][(phase \in {"commit", "apply", "done"}) => cur' = cur]_vars
=============================================================================
