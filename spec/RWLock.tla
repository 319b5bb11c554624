------------------------------- MODULE RWLock -------------------------------
(* Transactional reader/writer locks with per-thread lock states.

   A thread calls an operation, the operation takes effect at some moment
   (Lin), and returns. Acquisitions succeed or report a conflict; a conflict
   is legitimate only if the lock cannot be had, or if somebody is waiting
   for it.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread, Lock, Capacity

VARIABLES held,   \* [Thread -> [Lock -> "u" | "r" | "w"]]
          req,    \* [Thread -> pending operation]
          res     \* [Thread -> its result, or "none"]

lvars == <<held, req, res>>
NoReq == [op |-> "none", k |-> 0, old |-> FALSE]

Init == /\ held = [t \in Thread |-> [k \in Lock |-> "u"]]
        /\ req = [t \in Thread |-> NoReq]
        /\ res = [t \in Thread |-> "none"]

Call(t, op, k, old) ==
  /\ req[t].op = "none"
  /\ req' = [req EXCEPT ![t] = [op |-> op, k |-> k, old |-> old]]
  /\ res' = [res EXCEPT ![t] = "none"]
  /\ UNCHANGED held

Others(t, k, m) == {u \in Thread \ {t} : held[u][k] = m}
Readers(k) == {u \in Thread : held[u][k] = "r"}

(* May t have lock k in mode m, given what the others hold? *)
Allowed(t, k, m) ==
  IF m = "r" THEN Others(t, k, "w") = {} /\ Cardinality(Readers(k)) < Capacity
  ELSE Others(t, k, "w") = {} /\ Others(t, k, "r") = {}

(* Somebody may be queueing for the lock. *)
Queued(t, k) == \E u \in Thread \ {t} : req[u].op \in {"rd", "wr"} /\ req[u].k = k /\ req[u].old

Take(t, k, m) ==
  IF held[t][k] = "w" \/ held[t][k] = m
  THEN held' = held /\ res' = [res EXCEPT ![t] = "ok"]
  ELSE \/ /\ Allowed(t, k, m)
          /\ held' = [held EXCEPT ![t][k] = m]
          /\ res' = [res EXCEPT ![t] = "ok"]
       \/ /\ ~Allowed(t, k, m) \/ Queued(t, k)
          /\ held' = held
          /\ res' = [res EXCEPT ![t] = "conf"]

Lin(t) ==
  /\ req[t].op # "none" /\ res[t] = "none"
  /\ UNCHANGED req
  /\ LET k == req[t].k IN
     CASE req[t].op = "rd" -> Take(t, k, "r")
       [] req[t].op = "wr" -> Take(t, k, "w")
       [] req[t].op = "un" -> /\ held' = [held EXCEPT ![t][k] = "u"]
                              /\ res' = [res EXCEPT ![t] = "ok"]

Return(t, r) ==
  /\ req[t].op # "none" /\ res[t] = r
  /\ req' = [req EXCEPT ![t] = NoReq]
  /\ res' = [res EXCEPT ![t] = "none"]
  /\ UNCHANGED held

-----------------------------------------------------------------------------
Next == \E t \in Thread :
          \/ \E op \in {"rd", "wr", "un"}, k \in Lock, old \in BOOLEAN : Call(t, op, k, old)
          \/ Lin(t)
          \/ \E r \in {"ok", "conf"} : Return(t, r)
Spec == Init /\ [][Next]_lvars /\ \A t \in Thread : WF_lvars(Lin(t)) /\ WF_lvars(\E r \in {"ok", "conf"} : Return(t, r))

OneWriterOrReaders ==
  \A k \in Lock : \A t \in Thread :
     held[t][k] = "w" => \A u \in Thread \ {t} : held[u][k] = "u"
WithinCapacity == \A k \in Lock : Cardinality(Readers(k)) <= Capacity
(* Every call returns. *)
Returns == \A t \in Thread : req[t].op # "none" ~> req[t].op = "none"
=============================================================================
