------------------------------ MODULE TxMemMC ------------------------------
(* TxMem closed: every program over a few bytes, every interleaving, with the
   properties that the guards of TxMem are there for.                       *)
EXTENDS TxMem

CONSTANTS Value, Txs      \* values stored; committed transactions per thread

VARIABLES hist,   \* what the committed transactions read and wrote, in commit order
          done    \* committed transactions per thread

mvars == <<mem, ph, irr, wantirr, rd, wr, cause, tries, hist, done>>

MInit == /\ mem = [a \in Addr |-> 0]
         /\ Init
         /\ hist = <<>>
         /\ done = [t \in Thread |-> 0]

Same == UNCHANGED <<hist, done>>

(* An attempt that cannot go on has met a conflict. *)
Lone(t) == \A u \in Thread \ {t} : ~Active(u)

MNext == \E t \in Thread :
  \/ /\ done[t] < Txs /\ Same
     /\ \E i \in BOOLEAN : Begin(t, i, NextTry(t))
  \/ \E a \in Addr, v \in Value : Load(t, a, <<v>>) /\ rd[t][a] = None /\ wr[t][a] = None /\ Same
  \/ \E a \in Addr, v \in Value : Store(t, a, <<v>>) /\ wr[t][a] = None /\ Same
  \/ cause[t] = "none" /\ \E c \in {"irr", "conf", "err"} :
        ((c # "err") => ~irr[t]) /\ Request(t, c) /\ Same
  \/ cause[t] = "none" /\ Prepare(t) /\ Same
  \/ Apply(t) /\ hist' = Append(hist, [r |-> rd[t], w |-> wr[t]]) /\ UNCHANGED done
  \/ Undo(t) /\ Same
  \/ ph[t] = "done" /\ Finish(t) /\ Same
  \/ Finish(t) /\ Same
  \/ Again(t) /\ Same
  \/ End(t) /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED hist

MSpec == MInit /\ [][MNext]_mvars

RECURSIVE Replay(_, _)
Replay(n, m) ==   \* [ok, mem] after the first n committed transactions
  IF n = 0 THEN [ok |-> TRUE, mem |-> m]
  ELSE LET p == Replay(n - 1, m)
           h == hist[n]
       IN [ok |-> p.ok /\ \A a \in Addr : h.r[a] # None => h.r[a] = p.mem[a],
           mem |-> [a \in Addr |-> IF h.w[a] # None THEN h.w[a] ELSE p.mem[a]]]

Serializable == LET r == Replay(Len(hist), [a \in Addr |-> 0]) IN r.ok /\ r.mem = mem
Alone == \A t \in Thread : (Active(t) /\ irr[t]) =>
           \A u \in Thread \ {t} : ~(Active(u) /\ irr[u])
Bounded == \A t \in Thread : tries[t] <= RetryLimit + 1
LastTryIrr == \A t \in Thread : (Active(t) /\ tries[t] = RetryLimit) => irr[t]

(* keep the retries finite *)
Limit == \A t \in Thread : tries[t] <= RetryLimit
=============================================================================
