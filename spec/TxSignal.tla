------------------------------ MODULE TxSignal ------------------------------
(* Signals in and outside of transactions. A signal that has been acquired    *)
(* from the process and enabled on a thread ends the thread's running         *)
(* transaction: recoverable ones roll it back; the others skip the rollback,  *)
(* and the transaction has failed for good. All other acquired signals are    *)
(* handed to the function that the application passed for them, or dropped    *)
(* if there is none. Signals that are not acquired are none of the library's  *)
(* business, and a signal that is given back is handled as it was before.     *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Thread, Sig, Cell, Home   \* Home[c]: the thread that uses cell c
VARIABLES acq,    \* acquired signals
          fn,     \* signal -> the application's function while acquired; 0: none
          app,    \* signal -> the process's own handler; 0: default
          en,     \* thread -> signal -> 0 not enabled, 1 recoverable, 2 non-recoverable
          mask,   \* thread -> the mask of blocked signals
          mem,    \* cell -> committed value
          view,   \* thread -> cell -> value seen by the thread's transaction
          phase,  \* thread -> idle, exec, commit, apply, undo, undone, recovery, restart, dead, gone
          stk,    \* thread -> stack of signals [sig, code, det, h] that are being handled
          hit,    \* thread -> the signal that ends the transaction
          saved   \* thread -> mask at the beginning of the transaction
vars == <<acq, fn, app, en, mask, mem, view, phase, stk, hit, saved>>
Must(p) == p = TRUE
None == [sig |-> 0, code |-> 0, det |-> 0, h |-> 0]
Init == /\ acq = {} /\ fn = [g \in Sig |-> 0] /\ app = [g \in Sig |-> 0] /\ en = [t \in Thread |-> [g \in Sig |-> 0]]
        /\ mask = [t \in Thread |-> 0] /\ mem = [c \in Cell |-> 0] /\ view = [t \in Thread |-> mem]
        /\ phase = [t \in Thread |-> "idle"] /\ stk = [t \in Thread |-> <<>>] /\ hit = [t \in Thread |-> None]
        /\ saved = [t \in Thread |-> 0]
EINVAL == 22
On(t, p) == phase[t] \in p /\ stk[t] = <<>>
Idle(t) == On(t, {"idle"})
Ph(t, p) == phase' = [phase EXCEPT ![t] = p]
\* what the application sets up
Acquire(g, h, ok) ==
  /\ Must(ok = (g \in Sig))
  /\ IF g \in Sig \ acq THEN acq' = acq \cup {g} /\ fn' = [fn EXCEPT ![g] = h] ELSE UNCHANGED <<acq, fn>>
  /\ UNCHANGED <<app, en, mask, mem, view, phase, stk, hit, saved>>
GiveBack(g) == acq' = acq \ {g} /\ UNCHANGED <<fn, app, en, mask, mem, view, phase, stk, hit, saved>>
AppSet(g, h) == g \notin acq /\ app' = [app EXCEPT ![g] = h] /\ UNCHANGED <<acq, fn, en, mask, mem, view, phase, stk, hit, saved>>
Set(t, e) == /\ On(t, {"idle", "exec"}) /\ en' = [en EXCEPT ![t] = e]
             /\ UNCHANGED <<acq, fn, app, mask, mem, view, phase, stk, hit, saved>>
Add(t, g, r, ok) == Must(ok = (g \in 0..64)) /\ Set(t, IF g \in Sig THEN [en[t] EXCEPT ![g] = IF r = 0 THEN 2 ELSE 1] ELSE en[t])
Remove(t, g) == Set(t, IF g \in Sig THEN [en[t] EXCEPT ![g] = 0] ELSE en[t])
Clear(t) == Set(t, [g \in Sig |-> 0])
Release(t) == Idle(t) /\ Clear(t)
Mask(t, m) == Idle(t) /\ mask' = [mask EXCEPT ![t] = m] /\ UNCHANGED <<acq, fn, app, en, mem, view, phase, stk, hit, saved>>
\* signals
Running(t) == phase[t] \in {"exec", "commit", "apply"}
Recovers(t, g) == IF g \in acq /\ Running(t) THEN en[t][g] ELSE 0
Handler(g) == IF g \in acq THEN fn[g] ELSE app[g]
Raise(t, g, code, det) ==
  /\ phase[t] \in {"idle", "exec", "commit", "apply", "recovery"} /\ hit[t] = None
  /\ LET f == [sig |-> g, code |-> code, det |-> det, h |-> 0] IN
     CASE Recovers(t, g) = 1 -> hit' = [hit EXCEPT ![t] = f] /\ Ph(t, "undo") /\ UNCHANGED stk
       [] Recovers(t, g) = 2 -> hit' = [hit EXCEPT ![t] = f] /\ Ph(t, "dead") /\ UNCHANGED stk
       [] OTHER -> stk' = [stk EXCEPT ![t] = Append(@, f)] /\ UNCHANGED <<hit, phase>>
  /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, saved>>
Top(t) == stk[t][Len(stk[t])]
Handle(t, h, g, code, det) ==   \* the handler is entered
  /\ stk[t] # <<>> /\ Must(h # 0 /\ Top(t) = [sig |-> g, code |-> code, det |-> det, h |-> 0] /\ Handler(g) = h)
  /\ stk' = [stk EXCEPT ![t][Len(stk[t])].h = h] /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, phase, hit, saved>>
Return(t) ==                    \* ... and left
  /\ stk[t] # <<>> /\ Top(t).h > 0 /\ stk' = [stk EXCEPT ![t][Len(stk[t])].h = -1]
  /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, phase, hit, saved>>
Raised(t, m) ==                 \* the thread goes on where the signal hit it
  /\ stk[t] # <<>> /\ hit[t] = None /\ Must(Top(t).h = (IF Handler(Top(t).sig) = 0 THEN 0 ELSE -1))
  /\ LET s == SubSeq(stk[t], 1, Len(stk[t]) - 1) IN stk' = [stk EXCEPT ![t] = s] /\ Must((s = <<>>) => m = mask[t])
  /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, phase, hit, saved>>
\* the transaction
Begin(t) == /\ On(t, {"idle", "undone", "restart"}) /\ Ph(t, "exec") /\ view' = [view EXCEPT ![t] = mem] /\ hit' = [hit EXCEPT ![t] = None]
            /\ saved' = [saved EXCEPT ![t] = mask[t]] /\ UNCHANGED <<acq, fn, app, en, mask, mem, stk>>
Store(t, c, v) == /\ On(t, {"exec"}) /\ Home[c] = t /\ view' = [view EXCEPT ![t][c] = v]
                  /\ UNCHANGED <<acq, fn, app, en, mask, mem, phase, stk, hit, saved>>
Load(t, c, v) == On(t, {"exec"}) /\ Home[c] = t /\ Must(v = view[t][c]) /\ UNCHANGED vars
Fail(t) == On(t, {"exec", "commit"}) /\ Ph(t, "undo") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
Commit(t) == On(t, {"exec"}) /\ Ph(t, "commit") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
\* from here on the new values may be in memory; they are there once the modules have finished
Apply(t) == On(t, {"commit"}) /\ Ph(t, "apply") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
Undo(t) == phase[t] = "undo" /\ Ph(t, "undone") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
Committed(t) == [c \in Cell |-> IF Home[c] = t THEN view[t][c] ELSE mem[c]]
Finish(t) == IF phase[t] = "undone" THEN UNCHANGED vars
             ELSE /\ On(t, {"apply"}) /\ Ph(t, "done") /\ mem' = Committed(t) /\ UNCHANGED <<acq, fn, app, en, mask, view, stk, hit, saved>>
\* recovery: st 6 is a signal
Recover(t, sg, g, nr) ==
  /\ phase[t] \in {"undone", "dead"}
  /\ Must(nr = (phase[t] = "dead")) /\ Must(sg = (hit[t] # None)) /\ Must(g = hit[t].sig)
  /\ stk' = [stk EXCEPT ![t] = <<>>] /\ mask' = [mask EXCEPT ![t] = saved[t]]
  /\ Ph(t, IF nr THEN "gone" ELSE "recovery") /\ hit' = [hit EXCEPT ![t] = IF nr THEN @ ELSE None]
  /\ UNCHANGED <<acq, fn, app, en, mem, view, saved>>
Restart(t) == On(t, {"recovery"}) /\ Ph(t, "restart") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
End(t) == On(t, {"done", "recovery"}) /\ Ph(t, "idle") /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, stk, hit, saved>>
Look(t, cs, m) == On(t, {"idle", "exec", "recovery"}) /\ Must(cs = mem /\ m = mask[t]) /\ UNCHANGED vars
=============================================================================
