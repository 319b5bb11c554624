------------------------------ MODULE TxErrno ------------------------------
(* errno as part of the transaction's state. Any operation may change errno;  *)
(* a rollback restores the value from before the first of them.               *)
EXTENDS Naturals, Integers
VARIABLES cur,    \* the value of errno, if known
          saved,  \* the value from before the attempt's first operation
          ops,    \* operations have been called in this attempt
          phase   \* idle, exec, call, commit, apply, fail, undo, undone, done, recovery, restart
vars == <<cur, saved, ops, phase>>
Must(p) == p = TRUE
Unknown == -1
Init == cur = 0 /\ saved = 0 /\ ops = FALSE /\ phase = "idle"
Set(v) == phase = "idle" /\ cur' = v /\ UNCHANGED <<saved, ops, phase>>
Begin == phase \in {"idle", "undone", "restart"} /\ saved' = cur /\ ops' = FALSE /\ phase' = "exec" /\ UNCHANGED cur
Raw(v) == phase = "exec" /\ ~ops /\ cur' = v /\ saved' = v /\ UNCHANGED <<ops, phase>>
Call == phase = "exec" /\ phase' = "call" /\ ops' = TRUE /\ UNCHANGED <<cur, saved>>
Ret(v) == phase = "call" /\ cur' = v /\ phase' = "exec" /\ UNCHANGED <<saved, ops>>
Fail == phase \in {"exec", "commit"} /\ phase' = "fail" /\ UNCHANGED <<cur, saved, ops>>
Commit == phase = "exec" /\ phase' = "commit" /\ UNCHANGED <<cur, saved, ops>>
Apply == phase = "commit" /\ phase' = "apply" /\ UNCHANGED <<cur, saved, ops>>
Undo == phase \in {"call", "fail"} /\ phase' = "undo" /\ cur' = saved /\ UNCHANGED <<saved, ops>>
Finish == \/ phase = "apply" /\ phase' = "done"
          \/ phase = "undo" /\ phase' = "undone"
Recover(v) == phase = "undone" /\ v = cur /\ phase' = "recovery" /\ UNCHANGED <<cur, saved, ops>>
Restart == phase = "recovery" /\ phase' = "restart" /\ UNCHANGED <<cur, saved, ops>>
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ UNCHANGED <<cur, saved, ops>>
Look(v) == phase \in {"idle", "exec", "recovery"} /\ v = cur /\ UNCHANGED vars
=============================================================================
