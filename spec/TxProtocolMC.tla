---------------------------- MODULE TxProtocolMC ----------------------------
(* TxProtocol closed: every way in which a thread can run a transaction with
   a few modules, events and faults.                                        *)
EXTENDS TxProtocol

CONSTANTS MaxEv, MaxTry

Mk(i, c) == [id |-> i, begin |-> "begin" \in c, prep |-> "prep" \in c, apply |-> "apply" \in c,
             undo |-> "undo" \in c, aev |-> "aev" \in c, uev |-> "uev" \in c, fin |-> "fin" \in c]
All == {"begin", "prep", "apply", "undo", "aev", "uev", "fin"}
ModSets == { {Mk(0, All)}, {Mk(0, All), Mk(1, All)},
             {Mk(0, All), Mk(1, {"begin", "apply", "aev", "fin"})},
             {Mk(0, All \ {"begin", "fin"}), Mk(1, {"begin", "prep", "uev", "fin"})}, {} }

VARIABLES n,      \* attempts so far
          seen    \* callbacks and events of the attempt, in order

T0 == CHOOSE t \in Thread : TRUE
mvars == <<s, n, seen>>
St == s[T0]

MInit == /\ \E ms \in ModSets : s = [t \in Thread |-> Fresh(ms)]
         /\ n = 0 /\ seen = <<>>

E1 == [st |-> 3, v |-> 5, nr |-> 0]
E2 == [st |-> 3, v |-> 6, nr |-> 1]
Log(x) == seen' = Append(seen, x)
M == Ids(T0)

NewTry == n' = n + 1 /\ n < MaxTry

MNext ==
  \/ Start(T0) /\ NewTry /\ seen' = <<>>
  \/ \E m \in With(T0, "begin"), f \in {"no", "err"} :
        CbBegin(T0, m, f, E1) /\ (IF St.dir = "begin" THEN UNCHANGED n /\ Log(<<"begin", m>>)
                                 ELSE NewTry /\ seen' = <<<<"begin", m>>>>)
  \/ \E i \in BOOLEAN : Body(T0, i, 0) /\ (i => Base(T0).irr)
        /\ (IF St.dir = "begin" THEN UNCHANGED <<n, seen>> ELSE NewTry /\ seen' = <<>>)
  \/ \E m \in M : LET x == Len(St.log) + 1
                      r == CHOOSE q \in St.mods : q.id = m
                  IN x <= MaxEv /\ Event(T0, m, x, r.aev, r.uev) /\ UNCHANGED <<n, seen>>
  \/ \E k \in {"conf", "irr", "err"} : \E e \in (IF k = "err" THEN {E1, E2} ELSE {NoErr}) :
        Request(T0, k, e) /\ UNCHANGED <<n, seen>>
  \/ Commit(T0) /\ UNCHANGED <<n, seen>>
  \/ \E m \in With(T0, "prep"), f \in {"no", "conf", "irr", "err"} :
        CbPrepare(T0, m, f, IF f = "err" THEN E1 ELSE NoErr) /\ UNCHANGED n /\ Log(<<"prep", m>>)
  \/ \E m \in With(T0, "apply"), f \in {"no", "err"} : CbApply(T0, m, f, E1) /\ UNCHANGED n /\ Log(<<"apply", m>>)
  \/ \E m \in M, x \in 1..MaxEv, f \in {"no", "err"} : EvApply(T0, m, x, f, E1) /\ UNCHANGED n /\ Log(<<"aev", m, x>>)
  \/ \E m \in With(T0, "undo") : CbUndo(T0, m) /\ UNCHANGED n /\ Log(<<"undo", m>>)
  \/ \E m \in M, x \in 1..MaxEv : EvUndo(T0, m, x) /\ UNCHANGED n /\ Log(<<"uev", m, x>>)
  \/ \E m \in With(T0, "fin"), f \in {"no", "err"} :
        (f = "err" => St.dir = "commit") /\ CbFinish(T0, m, f, E1) /\ UNCHANGED n /\ Log(<<"fin", m>>)
  \/ Recovery(T0, St.err) /\ UNCHANGED <<n, seen>>
  \/ Again(T0) /\ NewTry /\ seen' = <<>>
  \/ End(T0) /\ UNCHANGED <<n, seen>>

MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Pos(x) == {i \in 1..Len(seen) : seen[i] = x}
Kind(k) == {i \in 1..Len(seen) : seen[i][1] = k}
Once == \A i, j \in 1..Len(seen) : i # j => seen[i] # seen[j]
Phases ==
  /\ \A i \in Kind("prep"), j \in Kind("apply") \cup Kind("aev") \cup Kind("fin") : i < j
  /\ \A i \in Kind("apply") \cup Kind("aev"), j \in Kind("fin") : i < j
  /\ \A i \in Kind("undo") \cup Kind("uev"), j \in Kind("fin") : i < j
  /\ (Kind("apply") # {} \/ Kind("aev") # {}) => (Kind("undo") = {} /\ Kind("uev") = {})
Order ==
  /\ \A i, j \in Kind("aev") : i < j => seen[i][3] < seen[j][3]
  /\ \A i, j \in Kind("uev") : i < j => seen[i][3] > seen[j][3]
(* At the end of a commit everything has been called. *)
Complete == [][ (St.dir = "commit" /\ s'[T0].dir = "out") =>
                 /\ \A m \in With(T0, "apply") : Pos(<<"apply", m>>) # {}
                 /\ \A m \in With(T0, "prep") : Pos(<<"prep", m>>) # {}
                 /\ \A m \in With(T0, "fin") : Pos(<<"fin", m>>) # {}
                 /\ \A i \in 1..Len(St.log) : St.log[i].ae => Pos(<<"aev", St.log[i].m, St.log[i].x>>) # {}
                 /\ Kind("undo") = {} ]_mvars
(* So it is when the recovery phase is reached after a rollback, and before a retry. *)
Reverted == [][ (St.why # "no" /\ St.dir \in {"run", "commit", "rollback"} /\ St.err.nr = 0
                 /\ s'[T0].dir \in {"rec", "begin", "run", "bfail"} /\ s'[T0].why # St.why) =>
                 /\ \A m \in With(T0, "undo") : Pos(<<"undo", m>>) # {}
                 /\ \A m \in With(T0, "fin") : Pos(<<"fin", m>>) # {}
                 /\ \A i \in 1..Len(St.log) : St.log[i].ue => Pos(<<"uev", St.log[i].m, St.log[i].x>>) # {}
                 /\ Kind("apply") = {} ]_mvars
(* A transaction comes to its end, or uses up its attempts. *)
Ends == <>(St.dir = "out" \/ n = MaxTry)
Terminates == [](St.dir = "commit" => <>(St.dir \in {"out", "rec", "begin", "run", "bfail"} \/ n = MaxTry))
=============================================================================
