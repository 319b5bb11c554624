----------------------------- MODULE TxExitMC -----------------------------
(* TxExit with the history that its guarantees talk about, and its refinement *)
(* of the plainest view of the process: what others see changes only all at   *)
(* once, and nothing that was decided is lost when the process is gone.       *)
EXTENDS TxExit
CONSTANTS Vals, MaxOps, Hooks
VARIABLES want,  \* what others have to see once the process is gone
          given, ran, ops
mvars == <<vars, want, given, ran, ops>>
MCHooks == {1, 2}
Seen0 == [mem |-> mem, file |-> file]
MInit == Init /\ want = Seen0 /\ given = <<>> /\ ran = <<>> /\ ops = 0
Keep == UNCHANGED <<want, given, ran, ops>>
Op == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<want, given, ran>>
MNext ==
  \/ \E k \in Hooks : /\ k = Len(given) + 1 /\ AtExit(k) /\ given' = Append(given, k) /\ UNCHANGED <<want, ran, ops>>
  \/ Op /\ Begin
  \/ \E c \in Cell, v \in Vals : Op /\ (Store(c, v) \/ Load(c, v))
  \/ \E f \in File, v \in Vals : Op /\ Write(f, <<v>>)
  \/ \E h \in {"exit", "_exit", "abort"}, s \in {0, 1} : Leave(h, s) /\ Keep
  \/ Commit /\ want' = [mem |-> view, file |-> [f \in File |-> file[f] \o app[f]]] /\ UNCHANGED <<given, ran, ops>>
  \/ Op /\ Fail
  \/ (Apply \/ Undo \/ Finish \/ Recover \/ Restart \/ End \/ HookEnd) /\ Keep
  \/ \E s \in {0, 1} : Bye(s) /\ want' = Seen0 /\ UNCHANGED <<given, ran, ops>>
  \/ \E k \in Hooks : Hook(k, mem) /\ ran' = <<k>> \o ran /\ UNCHANGED <<want, given, ops>>
  \/ \E h \in {"exited", "killed"}, s \in {0, 1, SIGABRT} : Gone(h, s) /\ Keep
MSpec == MInit /\ [][MNext]_mvars
\* the process is gone: all that its last transaction did is there
NothingLost == (phase = "gone") => Seen0 = want
\* handlers run only for exit(), and then all of them, the last first
HandlersRun == (phase = "gone") => ran = (IF how.how = "exit" THEN given ELSE <<>>)
\* the process is not gone with a transaction that has not been committed
NotInside == (phase = "gone") => how # Not
AtOnce == [][Seen0' # Seen0 => phase = "commit" /\ phase' = "apply"]_mvars
=============================================================================
