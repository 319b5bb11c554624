------------------------------- MODULE TxMem -------------------------------
(* Transactions on shared memory, as a user of picotm sees them.

   A transaction attempt begins, loads and stores bytes, and ends by taking
   effect at once (Apply) or by leaving no trace (Undo); Finish releases
   whatever the attempt held. Irrevocable attempts run alone. A transaction
   that is attempted again counts its restarts, and the attempt number
   RetryLimit is irrevocable.

   Every guard below belongs to one property; Check selects the ones that
   are enforced, so that a recorded trace can be judged for one property at
   a time:  "iso" C01/C02,  "excl" C03,  "retry" C05.                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread,      \* set of threads
          Addr,        \* set of addresses
          RetryLimit,  \* number of restarts after which an attempt is irrevocable
          Check        \* enforced groups of guards

None == -1

VARIABLES mem,    \* committed memory: [Addr -> byte]
          ph,     \* phase of the thread's attempt
          irr,    \* the attempt is irrevocable
          wantirr,\* the transaction asked for irrevocability
          rd,     \* what the attempt has read from committed memory
          wr,     \* what the attempt has written
          cause,  \* how the attempt came to its end
          tries   \* restarts of the current transaction

vars == <<mem, ph, irr, wantirr, rd, wr, cause, tries>>

On(g) == g \in Check
Empty == [a \in Addr |-> None]

Init == /\ ph = [t \in Thread |-> "out"]
        /\ irr = [t \in Thread |-> FALSE]
        /\ wantirr = [t \in Thread |-> FALSE]
        /\ rd = [t \in Thread |-> Empty]
        /\ wr = [t \in Thread |-> Empty]
        /\ cause = [t \in Thread |-> "none"]
        /\ tries = [t \in Thread |-> 0]

(* An attempt is running between its begin and its finish. *)
Active(t) == ph[t] \in {"run", "prep", "applied", "undone"}

View(t, a) == IF wr[t][a] # None THEN wr[t][a] ELSE mem[a]

(* Everything the attempt has read is still so. *)
ReadsValid(t) == \A a \in Addr : rd[t][a] # None => rd[t][a] = mem[a]

(* The number of restarts that the next attempt of t reports, and whether it
   is irrevocable. "again": the recovery phase asked for another attempt. *)
NextTry(t)  == IF ph[t] = "out" THEN 0 ELSE tries[t] + 1
MustBeIrr(t) == \/ wantirr[t]
                \/ NextTry(t) = RetryLimit

Begin(t, i, r) ==
  /\ ph[t] \in {"out", "retry", "again"}
  /\ On("excl") => \A u \in Thread \ {t} : Active(u) => ~irr[u] /\ ~i
  /\ On("retry") => /\ r = NextTry(t)
                    /\ MustBeIrr(t) => i
                    /\ i => MustBeIrr(t) \/ NextTry(t) > RetryLimit
  /\ ph' = [ph EXCEPT ![t] = "run"]
  /\ irr' = [irr EXCEPT ![t] = i]
  /\ tries' = [tries EXCEPT ![t] = r]
  /\ rd' = [rd EXCEPT ![t] = Empty]
  /\ wr' = [wr EXCEPT ![t] = Empty]
  /\ cause' = [cause EXCEPT ![t] = "none"]
  /\ wantirr' = [wantirr EXCEPT ![t] = FALSE]
  /\ UNCHANGED mem

(* Load of the bytes b at address o. *)
Load(t, o, b) ==
  /\ ph[t] = "run"
  /\ On("iso") => /\ \A k \in 1..Len(b) : b[k] = View(t, o + k - 1)
                  /\ ReadsValid(t)
  /\ On("excl") => \A u \in Thread \ {t} : Active(u) => ~irr[u]
  /\ rd' = [rd EXCEPT ![t] = [a \in Addr |->
              IF a \in o..(o + Len(b) - 1) /\ wr[t][a] = None THEN b[a - o + 1] ELSE rd[t][a]]]
  /\ UNCHANGED <<mem, ph, irr, wantirr, wr, cause, tries>>

Store(t, o, b) ==
  /\ ph[t] = "run"
  /\ On("excl") => \A u \in Thread \ {t} : Active(u) => ~irr[u]
  /\ wr' = [wr EXCEPT ![t] = [a \in Addr |->
              IF a \in o..(o + Len(b) - 1) THEN b[a - o + 1] ELSE wr[t][a]]]
  /\ UNCHANGED <<mem, ph, irr, wantirr, rd, cause, tries>>

(* The transaction itself asks for irrevocability / meets a conflict / fails. *)
Request(t, c) ==
  /\ ph[t] = "run"
  /\ cause' = [cause EXCEPT ![t] = c]
  /\ wantirr' = [wantirr EXCEPT ![t] = (c = "irr")]
  /\ UNCHANGED <<mem, ph, irr, rd, wr, tries>>

Prepare(t) ==
  /\ ph[t] = "run"
  /\ ph' = [ph EXCEPT ![t] = "prep"]
  /\ UNCHANGED <<mem, irr, wantirr, rd, wr, cause, tries>>

(* The commit takes effect. *)
Apply(t) ==
  /\ ph[t] = "prep"
  /\ On("iso") => ReadsValid(t)
  /\ On("excl") => \A u \in Thread \ {t} : Active(u) => ~irr[u]
  /\ mem' = [a \in Addr |-> View(t, a)]
  /\ ph' = [ph EXCEPT ![t] = "applied"]
  /\ UNCHANGED <<irr, wantirr, rd, wr, cause, tries>>

(* The attempt is rolled back. Irrevocable attempts never meet a conflict:
   they end only by committing or by the transaction's own error. *)
Undo(t) ==
  /\ ph[t] \in {"run", "prep"}
  /\ On("excl") => (irr[t] => cause[t] = "err")
  /\ ph' = [ph EXCEPT ![t] = "undone"]
  /\ UNCHANGED <<mem, irr, wantirr, rd, wr, cause, tries>>

Finish(t) ==
  /\ ph[t] \in {"applied", "undone"}
  /\ ph' = [ph EXCEPT ![t] = IF ph[t] = "applied" THEN "done"
                             ELSE IF cause[t] = "err" THEN "rec" ELSE "retry"]
  /\ rd' = [rd EXCEPT ![t] = Empty]
  /\ wr' = [wr EXCEPT ![t] = Empty]
  /\ UNCHANGED <<mem, irr, wantirr, cause, tries>>

(* The recovery phase: give up, or try again. *)
Again(t) ==
  /\ ph[t] = "rec"
  /\ ph' = [ph EXCEPT ![t] = "again"]
  /\ UNCHANGED <<mem, irr, wantirr, rd, wr, cause, tries>>

End(t) ==
  /\ ph[t] \in {"done", "rec"}
  /\ ph' = [ph EXCEPT ![t] = "out"]
  /\ UNCHANGED <<mem, irr, wantirr, rd, wr, cause, tries>>
=============================================================================
