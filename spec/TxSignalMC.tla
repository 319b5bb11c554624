----------------------------- MODULE TxSignalMC -----------------------------
(* How the library tells what a signal means, against TxSignal: a flag and a  *)
(* table per thread, a process-wide entry per signal that is written before   *)
(* the kernel's handler is set and cleared after it is reset, and a handler   *)
(* that looks at all of them while other threads acquire and give back.       *)
EXTENDS TxSignal, FiniteSets
CONSTANTS MaxOps, Bad
VARIABLES n,
          kact,   \* signals that the kernel delivers to the library's handler
          ent,    \* signal -> [acq, fn]
          run,    \* thread -> its transaction is running
          tab,    \* thread -> signal -> 0, 1, 2
          setup,  \* the acquisition or return in progress, [op, g, h]
          sp      \* thread -> the handler in progress, [g, step, want, over]
ivars == <<kact, ent, run, tab, setup, sp>>
MCHome == [c \in Cell |-> 1]
NoSetup == [op |-> "none", g |-> 0, h |-> 0]
NoSig == [g |-> 0, step |-> 0, want |-> 0, over |-> FALSE]
Free == [acq |-> FALSE, fn |-> 0]
MInit == /\ Init /\ app = [g \in Sig |-> 0] /\ n = 0 /\ kact = {} /\ ent = [g \in Sig |-> Free] /\ run = [t \in Thread |-> FALSE]
         /\ tab = [t \in Thread |-> [g \in Sig |-> 0]] /\ setup = NoSetup /\ sp = [t \in Thread |-> NoSig]
More == n < MaxOps /\ n' = n + 1
Same == UNCHANGED ivars /\ UNCHANGED n
\* acquire: the entry first, then the kernel
MAcquire(g, h) ==
  /\ More /\ setup.op = "none"
  /\ IF ent[g].acq THEN Acquire(g, h, TRUE) /\ UNCHANGED <<ent, setup, kact>>
     ELSE IF Bad = "late" THEN /\ Acquire(g, h, TRUE) /\ kact' = kact \cup {g} /\ setup' = [op |-> "fill", g |-> g, h |-> h] /\ UNCHANGED ent
     ELSE /\ ent' = [ent EXCEPT ![g] = [acq |-> TRUE, fn |-> h]] /\ setup' = [op |-> "acquire", g |-> g, h |-> h] /\ UNCHANGED <<vars, kact>>
  /\ UNCHANGED <<run, tab, sp>>
MAcquire2 == /\ setup.op = "acquire" /\ Acquire(setup.g, setup.h, TRUE) /\ kact' = kact \cup {setup.g} /\ setup' = NoSetup
             /\ UNCHANGED <<n, ent, run, tab, sp>>
MFill == /\ setup.op = "fill" /\ ent' = [ent EXCEPT ![setup.g] = [acq |-> TRUE, fn |-> setup.h]] /\ setup' = NoSetup
         /\ UNCHANGED <<vars, n, kact, run, tab, sp>>
Over(g) == [t \in Thread |-> IF sp[t].g = g THEN [sp[t] EXCEPT !.over = TRUE] ELSE sp[t]]
MGive(g) == /\ More /\ setup.op = "none" /\ ent[g].acq /\ GiveBack(g) /\ kact' = kact \ {g} /\ setup' = [op |-> "give", g |-> g, h |-> 0]
            /\ sp' = Over(g) /\ UNCHANGED <<ent, run, tab>>
MGive2 == /\ setup.op = "give" /\ ent' = [ent EXCEPT ![setup.g] = Free] /\ setup' = NoSetup /\ UNCHANGED <<vars, n, kact, run, tab, sp>>
Quiet(t) == sp[t] = NoSig
MAdd(t, g, r) == More /\ Quiet(t) /\ Add(t, g, r, TRUE) /\ tab' = [tab EXCEPT ![t][g] = IF r = 0 THEN 2 ELSE 1] /\ UNCHANGED <<kact, ent, run, setup, sp>>
MRemove(t, g) == /\ More /\ Quiet(t) /\ Remove(t, g) /\ tab' = [tab EXCEPT ![t][g] = IF Bad = "stale" THEN @ ELSE 0]
                 /\ UNCHANGED <<kact, ent, run, setup, sp>>
\* a signal arrives; the kernel has chosen the library's handler
MRaise(t, g) == /\ More /\ Quiet(t) /\ g \in kact /\ Raise(t, g, 0, 0)
                /\ sp' = [sp EXCEPT ![t] = [g |-> g, step |-> 1, want |-> Handler(g), over |-> FALSE]]
                /\ UNCHANGED <<kact, ent, run, tab, setup>>
\* the handler looks at the thread's state: recover, or go on
MLook(t) == /\ sp[t].step = 1
            /\ IF run[t] /\ tab[t][sp[t].g] # 0 THEN sp' = [sp EXCEPT ![t].step = 9] ELSE sp' = [sp EXCEPT ![t].step = 2]
            /\ UNCHANGED <<vars, n, kact, ent, run, tab, setup>>
\* it calls the application's function, or none
MCall(t) == /\ sp[t].step = 2
            /\ LET e == ent[sp[t].g] IN sp' = [sp EXCEPT ![t] = [g |-> @.g, step |-> 3, want |-> (IF @.over THEN -1 ELSE @.want - (IF e.acq THEN e.fn ELSE 0)), over |-> @.over]]
            /\ UNCHANGED <<vars, n, kact, ent, run, tab, setup>>
MReturn(t) == /\ sp[t].step = 3 /\ stk' = [stk EXCEPT ![t] = <<>>] /\ sp' = [sp EXCEPT ![t] = NoSig]
              /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, phase, hit, saved, n, kact, ent, run, tab, setup>>
\* the transaction
MBegin(t) == /\ Quiet(t) /\ (phase[t] = "idle" => n < MaxOps) /\ Begin(t) /\ n' = (IF phase[t] = "idle" THEN n + 1 ELSE n)
             /\ run' = [run EXCEPT ![t] = TRUE] /\ UNCHANGED <<kact, ent, tab, setup, sp>>
MFinish(t) == /\ Quiet(t) /\ phase[t] = "apply" /\ Finish(t) /\ run' = [run EXCEPT ![t] = (Bad = "flag")] /\ UNCHANGED <<n, kact, ent, tab, setup, sp>>
MUndo(t) == /\ (Quiet(t) \/ sp[t].step = 9) /\ Undo(t) /\ run' = [run EXCEPT ![t] = FALSE] /\ UNCHANGED <<n, kact, ent, tab, setup, sp>>
MRecover(t) == /\ phase[t] \in {"undone", "dead"} /\ (Quiet(t) \/ sp[t].step = 9) /\ Recover(t, hit[t] # None, hit[t].sig, phase[t] = "dead")
               /\ sp' = [sp EXCEPT ![t] = NoSig] /\ UNCHANGED <<n, kact, ent, run, tab, setup>>
MNext ==
  \/ MAcquire2 \/ MFill \/ MGive2
  \/ \E g \in Sig : (\E h \in {0, 1} : MAcquire(g, h)) \/ MGive(g)
  \/ \E t \in Thread :
       \/ \E g \in Sig : (\E r \in {0, 1} : MAdd(t, g, r)) \/ MRemove(t, g) \/ MRaise(t, g)
       \/ MLook(t) \/ MCall(t) \/ MReturn(t) \/ MBegin(t) \/ MFinish(t) \/ MUndo(t) \/ MRecover(t)
       \/ (Quiet(t) /\ (Commit(t) \/ Apply(t) \/ Fail(t) \/ Restart(t) \/ End(t)) /\ Same)
MSpec == MInit /\ [][MNext]_<<vars, n, ivars>>
Decided == \A t \in Thread : /\ (sp[t].step = 9 => hit[t] # None) /\ (sp[t].step \in {2, 3} => hit[t] = None)
\* the application's function is called as it was when the signal arrived, unless the signal has been given back since
Called == \A t \in Thread : sp[t].step = 3 => (sp[t].want = 0 \/ sp[t].over)
Alone == \A t \in Thread : run[t] = Running(t) \/ phase[t] \in {"undo", "dead", "gone"}
Given == \A g \in Sig : (g \in kact) = (g \in acq)
=============================================================================
