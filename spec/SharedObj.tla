------------------------------ MODULE SharedObj ------------------------------
(* Reference-counted shared objects. The first reference sets the object up,
   the last one tears it down; nobody gets a reference in between.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread

VARIABLES n,     \* references
          live,  \* "no", "setup", "yes", "down"
          st     \* [Thread -> what the thread is doing]

ovars == <<n, live, st>>
Idle == [op |-> "none", at |-> "none", cond |-> 0]
Init == n = 0 /\ live = "no" /\ st = [t \in Thread |-> Idle]

At(t, a) == st' = [st EXCEPT ![t].at = a]

Call(t, op) ==   \* "up", "fast" (holds a reference already), "down"
  /\ st[t].op = "none"
  /\ st' = [st EXCEPT ![t] = [op |-> op, at |-> "called", cond |-> 0]]
  /\ UNCHANGED <<n, live>>

(* The caller's condition is evaluated: 0 go on, 1 no, 2 error. *)
Cond(t, f) ==
  /\ st[t].op # "none" /\ st[t].at = "called"
  /\ st' = [st EXCEPT ![t].cond = f, ![t].at = IF f = 0 THEN "called" ELSE "out"]
  /\ UNCHANGED <<n, live>>

(* Another reference to an object that is set up. *)
TakeMore(t) ==
  /\ st[t].op \in {"up", "fast"} /\ st[t].at = "called"
  /\ n > 0 /\ live = "yes"
  /\ n' = n + 1 /\ At(t, "have") /\ UNCHANGED live

First(t) ==
  /\ st[t].op = "up" /\ st[t].at = "called"
  /\ n = 0 /\ live = "no"
  /\ live' = "setup" /\ At(t, "first") /\ UNCHANGED n

FirstDone(t, ok) ==
  /\ st[t].at = "first"
  /\ IF ok THEN live' = "yes" /\ n' = 1 /\ At(t, "have")
           ELSE live' = "no" /\ n' = 0 /\ At(t, "failed")

DropOne(t) ==
  /\ st[t].op = "down" /\ st[t].at = "called" /\ n > 1
  /\ n' = n - 1 /\ At(t, "gone") /\ UNCHANGED live

Last(t) ==
  /\ st[t].op = "down" /\ st[t].at = "called" /\ n = 1 /\ live = "yes"
  /\ live' = "down" /\ At(t, "last") /\ n' = 0

LastDone(t) ==
  /\ st[t].at = "last"
  /\ live' = "no" /\ At(t, "gone") /\ UNCHANGED n

Return(t, r) ==
  /\ \/ st[t].at \in {"have", "gone"} /\ r = "ok"
     \/ st[t].at = "failed" /\ r = "err"
     \/ st[t].at = "out" /\ r = (IF st[t].cond = 1 THEN "no" ELSE "err")
  /\ st' = [st EXCEPT ![t] = Idle]
  /\ UNCHANGED <<n, live>>
-----------------------------------------------------------------------------
(* Closed: every thread takes and drops references. *)
VARIABLE mine
svars == <<ovars, mine>>
CONSTANT MaxRef
MInit == Init /\ mine = [t \in Thread |-> 0]
MNext == \E t \in Thread :
  \/ mine[t] < MaxRef /\ Call(t, "up") /\ UNCHANGED mine
  \/ mine[t] \in 1..(MaxRef - 1) /\ Call(t, "fast") /\ UNCHANGED mine
  \/ mine[t] > 0 /\ Call(t, "down") /\ UNCHANGED mine
  \/ st[t].op # "fast" /\ st[t].cond = 0 /\ (\E f \in 1..2 : (st[t].op = "down" => f = 1) /\ Cond(t, f)) /\ UNCHANGED mine
  \/ (TakeMore(t) \/ First(t) \/ (\E ok \in BOOLEAN : FirstDone(t, ok))) /\ UNCHANGED mine
  \/ (DropOne(t) \/ Last(t) \/ LastDone(t)) /\ UNCHANGED mine
  \/ \E r \in {"ok", "err", "no"} : Return(t, r) /\
       mine' = [mine EXCEPT ![t] = @ + (IF r # "ok" THEN 0 ELSE IF st[t].op = "down" THEN -1 ELSE 1)]
MSpec == MInit /\ [][MNext]_svars /\ \A t \in Thread : WF_svars(
            (TakeMore(t) \/ First(t) \/ (\E ok \in BOOLEAN : FirstDone(t, ok)) \/ DropOne(t) \/ Last(t) \/ LastDone(t)
             \/ \E r \in {"ok", "err", "no"} : Return(t, r)) /\ TRUE)

Held(t) == mine[t] > 0
LiveWhenHeld == (\E t \in Thread : Held(t) /\ st[t].op # "down") => live = "yes"
CountRight == n = 0 <=> live \in {"no", "setup", "down"}
=============================================================================
