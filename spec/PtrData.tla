------------------------------- MODULE PtrData -------------------------------
(* Data attached to addresses: shared by all threads, or local to one. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread, Adr
VARIABLES shared, local, st
pvars == <<shared, local, st>>
Idle == [op |-> "none", a |-> 0, v |-> 0, c |-> 0, done |-> FALSE, r |-> 0]
Init == /\ shared = [a \in Adr |-> 0]
        /\ local = [t \in Thread |-> [a \in Adr |-> 0]]
        /\ st = [t \in Thread |-> Idle]
Call(t, op, a, v, c) ==
  /\ st[t] = Idle
  /\ st' = [st EXCEPT ![t] = [op |-> op, a |-> a, v |-> v, c |-> c, done |-> FALSE, r |-> 0]]
  /\ UNCHANGED <<shared, local>>
Eff(t, sh, lo, r) == shared' = sh /\ local' = lo /\ st' = [st EXCEPT ![t].done = TRUE, ![t].r = r]
Lin(t) ==
  LET q == st[t]
      setS(v) == [shared EXCEPT ![q.a] = v]
      setL(v) == [local EXCEPT ![t][q.a] = v]
  IN /\ q.op # "none" /\ ~q.done
     /\ CASE q.op = "sset" -> Eff(t, setS(q.v), local, 0)
          [] q.op = "sclr" -> Eff(t, setS(0), local, 0)
          [] q.op = "sget" -> Eff(t, shared, local, shared[q.a])
          [] q.op = "stas" -> IF shared[q.a] = q.c THEN Eff(t, setS(q.v), local, 1) ELSE Eff(t, shared, local, 0)
          [] q.op = "lset" -> Eff(t, shared, setL(q.v), 0)
          [] q.op = "lclr" -> Eff(t, shared, setL(0), 0)
          [] q.op = "lget" -> Eff(t, shared, local, local[t][q.a])
Return(t, r) ==
  /\ st[t].done /\ st[t].r = r
  /\ st' = [st EXCEPT ![t] = Idle]
  /\ UNCHANGED <<shared, local>>
-----------------------------------------------------------------------------
Next == \E t \in Thread :
  \/ \E op \in {"sset", "stas", "sclr", "sget", "lset", "lclr", "lget"}, a \in Adr, v \in 1..2, c \in 0..2 :
        (op \notin {"sset", "lset", "stas"} => v = 1) /\ (op # "stas" => c = 0) /\ Call(t, op, a, v, c)
  \/ Lin(t)
  \/ \E r \in 0..2 : Return(t, r)
Spec == Init /\ [][Next]_pvars
(* A thread's local data changes only by its own operations. *)
LocalOnly == [][\A t \in Thread : local'[t] # local[t] => st[t].op \in {"lset", "lclr"}]_pvars
=============================================================================
