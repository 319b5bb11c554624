------------------------------- MODULE TmSeqMC -------------------------------
(* TmSeq with its parameters chosen from small sets, and what follows from it. *)
EXTENDS TmSeq

CONSTANTS Value, MaxOps
VARIABLES before, ops
mvars == <<vars, before, ops>>

Bytes(n) == [1..n -> Value]
Fits(o, n) == Rgn(o, n) \subseteq Addr
Step == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED before

MInit == (\E m \in [Addr -> Value] : InitWith(m) /\ before = m) /\ ops = 0
MNext ==
  \/ Begin /\ before' = mem /\ ops < MaxOps /\ ops' = ops + 1
  \/ Step /\ \E o \in Addr, n \in 1..2 : Fits(o, n) /\
       \/ \E b \in Bytes(n) : Load(o, b) \/ Store(o, b) \/ DirectRead(o, b) \/ DirectWrite(o, b) \/ Reuse(o, b)
       \/ \E d \in Addr : Fits(d, n) /\ LoadStore(o, d, n)
       \/ \E f \in {"load", "store", "discard"} : Privatize(o, n, f)
       \/ \E c \in Value, f \in {"load", "store", "discard"} : PrivatizeC(o, c, f)
       \/ OutOfBounds(o, n)
  \/ Step /\ (Rollback \/ Commit)
  \/ ~open /\ (\E m \in [Addr -> Value] : Settle(m)) /\ UNCHANGED <<before, ops>>
MSpec == MInit /\ [][MNext]_mvars

TypeOK == mem \in [Addr -> Value] /\ ps \subseteq pl /\ view \in [Addr -> Value]
(* A commit changes nothing but what the attempt stored to (or discarded). *)
CommitExact == [][Commit => \A a \in Addr \ (wrote \cup po) : mem'[a] = before[a]]_mvars
AbortClean  == [][Rollback => \A a \in Addr \ po : mem'[a] = before[a] /\ view'[a] = before[a]]_mvars
(* The attempt sees its own stores, and otherwise what was there before. *)
ViewExact == open => \A a \in Addr : view[a] = before[a] \/ a \in wrote \cup po
=============================================================================
