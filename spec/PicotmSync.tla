----------------------------- MODULE PicotmSync -----------------------------
(* Spin locks and shared reference counters. A thread calls an operation, which takes effect
   at some moment between call and return.                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Thread
VARIABLES holder, \* the thread that has the lock, or Nobody
          cnt,    \* the counter
          req,    \* [Thread -> operation under way, or "none"]
          res     \* [Thread -> its result, or None before it took effect]
yvars == <<holder, cnt, req, res>>
Nobody == -1
None == -1
Init == holder = Nobody /\ cnt = 0 /\ req = [t \in Thread |-> "none"] /\ res = [t \in Thread |-> None]
B(p) == IF p THEN 1 ELSE 0
Call(t, op) ==
  /\ req[t] = "none"
  /\ req' = [req EXCEPT ![t] = op] /\ res' = [res EXCEPT ![t] = None] /\ UNCHANGED <<holder, cnt>>
Result(t, r) == res' = [res EXCEPT ![t] = r] /\ UNCHANGED req
Lin(t) ==
  /\ req[t] # "none" /\ res[t] = None
  /\ CASE req[t] = "lock" -> holder = Nobody /\ holder' = t /\ UNCHANGED cnt /\ Result(t, 1)
       [] req[t] = "try" -> /\ holder' = (IF holder = Nobody THEN t ELSE holder)  \* fails only if somebody has the lock
                            /\ UNCHANGED cnt /\ Result(t, B(holder = Nobody))
       [] req[t] = "unlock" -> holder = t /\ holder' = Nobody /\ UNCHANGED cnt /\ Result(t, 1)
       [] req[t] = "up" -> cnt' = cnt + 1 /\ UNCHANGED holder /\ Result(t, B(cnt = 0))   \* was it the first reference?
       [] req[t] = "down" -> cnt > 0 /\ cnt' = cnt - 1 /\ UNCHANGED holder /\ Result(t, B(cnt = 1))  \* the final one?
       [] req[t] = "count" -> UNCHANGED <<holder, cnt>> /\ Result(t, cnt)
Return(t, r) ==
  /\ req[t] # "none" /\ res[t] # None /\ res[t] = r
  /\ req' = [req EXCEPT ![t] = "none"] /\ res' = [res EXCEPT ![t] = None] /\ UNCHANGED <<holder, cnt>>
=============================================================================
