---------------------------- MODULE PicotmSyncMC ----------------------------
(* The implementation: a flag that is set by compare-and-exchange and a number that is fetched
   and changed in one step, used by threads the way modules do. Every step of it is a step of
   PicotmSync, and what modules build on it follows.                                         *)
EXTENDS PicotmSync
CONSTANTS MaxCnt
VARIABLES flag, num, mine, firsts, finals
mvars == <<yvars, flag, num, mine, firsts, finals>>
\* mine: what a thread has; firsts/finals: up() and down() that told so
MInit == /\ Init /\ flag = 0 /\ num = 0 /\ mine = [t \in Thread |-> [lock |-> FALSE, refs |-> 0]]
         /\ firsts = 0 /\ finals = 0
Keep == UNCHANGED <<flag, num, mine, firsts, finals>>
MCall(t) == \E op \in {"lock", "try", "unlock", "up", "down", "count"} :
  /\ op \in {"lock", "try"} => ~mine[t].lock
  /\ op = "unlock" => mine[t].lock
  /\ op = "down" => mine[t].refs > 0
  /\ op = "up" => Cardinality({u \in Thread : req[u] = "up"}) + num < MaxCnt
  /\ Call(t, op) /\ Keep
\* one atomic access each
Access(t) ==
  /\ req[t] # "none" /\ res[t] = None /\ UNCHANGED mine
  /\ CASE req[t] = "lock" -> flag = 0 /\ flag' = 1 /\ Result(t, 1) /\ UNCHANGED <<num, firsts, finals>>
       [] req[t] = "try" -> flag' = 1 /\ Result(t, 1 - flag) /\ UNCHANGED <<num, firsts, finals>>
       [] req[t] = "unlock" -> flag' = 0 /\ Result(t, 1) /\ UNCHANGED <<num, firsts, finals>>
       [] req[t] = "up" -> num' = num + 1 /\ Result(t, B(num = 0)) /\ firsts' = firsts + B(num = 0) /\ UNCHANGED <<flag, finals>>
       [] req[t] = "down" -> num' = num - 1 /\ Result(t, B(num = 1)) /\ finals' = finals + B(num = 1) /\ UNCHANGED <<flag, firsts>>
       [] req[t] = "count" -> Result(t, num) /\ UNCHANGED <<flag, num, firsts, finals>>
MLin(t) == Access(t) /\ Lin(t)
MRet(t) == \E r \in 0..MaxCnt :
  /\ Return(t, r) /\ UNCHANGED <<flag, num, firsts, finals>>
  /\ mine' = [mine EXCEPT ![t] = [lock |-> IF req[t] = "lock" \/ (req[t] = "try" /\ r = 1) THEN TRUE ELSE IF req[t] = "unlock" THEN FALSE ELSE @.lock,
                                   refs |-> IF req[t] = "up" THEN @.refs + 1 ELSE IF req[t] = "down" THEN @.refs - 1 ELSE @.refs]]
MNext == \E t \in Thread : MCall(t) \/ MLin(t) \/ MRet(t)
MSpec == MInit /\ [][MNext]_mvars
Small == firsts < 4
Agree == flag = B(holder # Nobody) /\ num = cnt
Has(t) == mine[t].lock /\ req[t] # "unlock"
Mutex == \A t, u \in Thread : Has(t) /\ Has(u) => t = u
Refines == \A t \in Thread : (req[t] # "none" /\ res[t] = None /\ (req[t] = "lock" => flag = 0)) => ENABLED MLin(t)
\* every lifetime starts and ends once
Lifetimes == firsts - finals = B(num > 0)
=============================================================================
