----------------------------- MODULE RWLockImpl -----------------------------
(* The lock as it is implemented: one atomic counter, changed by
   compare-and-exchange. The counter value Writer marks a writer; the
   highest reader count is Writer - 1. Refines RWLock.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread, Writer

VARIABLES n,    \* the counter
          pc,   \* [Thread -> step]
          v,    \* [Thread -> value the thread has loaded]
          s,    \* [Thread -> lock state of the thread]
          out,  \* [Thread -> result]
          op    \* [Thread -> operation]
ivars == <<n, pc, v, s, out, op>>

IInit == n = 0 /\ pc = [t \in Thread |-> "idle"] /\ v = [t \in Thread |-> 0]
         /\ s = [t \in Thread |-> "u"] /\ out = [t \in Thread |-> "none"] /\ op = [t \in Thread |-> "none"]

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Done(t, p, r, o) == Go(t, p) /\ s' = [s EXCEPT ![t] = r] /\ out' = [out EXCEPT ![t] = o]

Start(t) == /\ pc[t] = "idle"
            /\ \E o \in {"rd", "wr", "un"} : Go(t, o) /\ op' = [op EXCEPT ![t] = o]
            /\ UNCHANGED <<n, v, s, out>>

(* nothing to do: the state is there already *)
Noop(t) == /\ \/ pc[t] = "rd" /\ s[t] # "u"
              \/ pc[t] = "wr" /\ s[t] = "w"
              \/ pc[t] = "un" /\ s[t] = "u"
           /\ Done(t, "ret" , s[t], "ok") /\ UNCHANGED <<n, v, op>>

LoadN(t) == /\ (pc[t] = "rd" /\ s[t] = "u") \/ (pc[t] = "wr" /\ s[t] # "w")
            /\ v' = [v EXCEPT ![t] = n]
            /\ Go(t, IF pc[t] = "rd" THEN "rdcas" ELSE IF s[t] = "r" THEN "upcas" ELSE "wrcas")
            /\ UNCHANGED <<n, s, out, op>>

Fits(t) == CASE pc[t] = "rdcas" -> v[t] < Writer - 1
             [] pc[t] = "wrcas" -> v[t] = 0
             [] pc[t] = "upcas" -> v[t] = 1
Cas(t) == /\ pc[t] \in {"rdcas", "wrcas", "upcas"}
          /\ IF ~Fits(t) THEN Done(t, "ret", s[t], "conf") /\ UNCHANGED <<n, v, op>>
             ELSE IF n = v[t]
             THEN /\ n' = (IF pc[t] = "rdcas" THEN n + 1 ELSE Writer)
                  /\ Done(t, "ret", IF pc[t] = "rdcas" THEN "r" ELSE "w", "ok") /\ UNCHANGED <<v, op>>
             ELSE v' = [v EXCEPT ![t] = n] /\ UNCHANGED <<n, pc, s, out, op>>

Unlock(t) == /\ pc[t] = "un" /\ s[t] # "u"
             /\ n' = (IF s[t] = "w" THEN n - Writer ELSE n - 1)
             /\ Done(t, "ret", "u", "ok") /\ UNCHANGED <<v, op>>

Ret(t) == pc[t] = "ret" /\ Go(t, "idle") /\ out' = [out EXCEPT ![t] = "none"] /\ UNCHANGED <<n, v, s, op>>

INext == \E t \in Thread : Start(t) \/ Noop(t) \/ LoadN(t) \/ Cas(t) \/ Unlock(t) \/ Ret(t)
ISpec == IInit /\ [][INext]_ivars

Agree == n = IF \E t \in Thread : s[t] = "w" THEN Writer ELSE Cardinality({t \in Thread : s[t] = "r"})

(* Refinement. A conflict is decided when the counter is loaded, a success
   when it is exchanged.                                                    *)
CasOp == {"rdcas", "wrcas", "upcas"}
L == INSTANCE RWLock WITH Lock <- {0}, Capacity <- Writer - 1,
       held <- [t \in Thread |-> [k \in {0} |-> s[t]]],
       req <- [t \in Thread |-> IF pc[t] = "idle" THEN [op |-> "none", k |-> 0, old |-> FALSE]
                                ELSE [op |-> op[t], k |-> 0, old |-> FALSE]],
       res <- [t \in Thread |-> IF pc[t] \in CasOp /\ ~Fits(t) THEN "conf" ELSE out[t]]
Refines == L!Init /\ [][L!Next]_(L!lvars)
=============================================================================
