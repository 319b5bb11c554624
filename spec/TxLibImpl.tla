----------------------------- MODULE TxLibImpl -----------------------------
(* How the module implements TxLib for one container: a list is changed in   *)
(* place under its lock and repaired by undoing events; queues and stacks    *)
(* keep pushed entries in a transaction-local sequence, lock the shared one  *)
(* no later than prepare, and move the entries when push events are applied  *)
(* one by one. The abstract specification runs along; every result must be   *)
(* one TxLib allows, and the shared sequence must be TxLib's contents        *)
(* whenever nobody holds the lock for writing.                               *)
EXTENDS TxLib

CONSTANTS K,        \* kind: 0 list, 1 queue, 2 stack
          Entry, MaxOps, Txs,
          Fill       \* the container has up to so many entries at first

VARIABLES shared, rd, wr, local, ev, pc, ix, ops, txs, good
ivars == <<shared, rd, wr, local, ev, pc, ix, ops, txs, good>>
allvars == <<vars, ivars>>
C == K

IInit ==
  /\ \E n \in 0..Fill :
       /\ shared = [i \in 1..n |-> 100 + i]
       /\ content = [c \in Cont |-> shared]
  /\ log = [t \in Thread |-> NoOps] /\ phase = [t \in Thread |-> "idle"]
  /\ rd = {} /\ wr = {}
  /\ local = [t \in Thread |-> <<>>] /\ ev = [t \in Thread |-> <<>>]
  /\ pc = [t \in Thread |-> "idle"] /\ ix = [t \in Thread |-> 0]
  /\ ops = [t \in Thread |-> 0] /\ txs = [t \in Thread |-> 0] /\ good = TRUE

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Used == Range(shared) \cup UNION {Range(local[t]) : t \in Thread}
        \cup UNION {Range(content[c]) : c \in Cont}
MayRd(t) == wr \subseteq {t}
MayWr(t) == wr \subseteq {t} /\ rd \subseteq {t}
Rd(t) == rd' = rd \cup {t} /\ UNCHANGED wr
Wr(t) == wr' = {t} /\ UNCHANGED rd
NoLock == UNCHANGED <<rd, wr>>

IBegin(t) ==
  /\ pc[t] = "idle" /\ txs[t] < Txs
  /\ Begin(t)
  /\ pc' = [pc EXCEPT ![t] = "body"] /\ txs' = [txs EXCEPT ![t] = @ + 1]
  /\ ops' = [ops EXCEPT ![t] = 0]
  /\ UNCHANGED <<shared, rd, wr, local, ev, ix, good>>

O(op, x, r) == [op |-> op, x |-> x, p |-> None, r |-> r]
\* the abstract step that belongs to an operation; good tells whether TxLib allows it
Abs(t, o) ==
  LET l == Append(log[t][C], o)
  IN /\ good' = (good /\ Replay(Kind(C), content[C], l).ok)
     /\ log' = [log EXCEPT ![t][C] = l]
     /\ UNCHANGED <<content, phase>>
Body(t) == pc[t] = "body" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, ix, txs>>
Event(t, e) == ev' = [ev EXCEPT ![t] = Append(@, e)]

\* entries are private to a thread until they are inserted
Mine(t, x) == x % 2 = t % 2 /\ x \notin Used /\ \A u \in Thread \ {t} : \A i \in 1..Len(ev[u]) : ev[u][i].x # x

Push(t, x) ==
  /\ Body(t) /\ Mine(t, x)
  /\ IF K = 0
     THEN /\ MayWr(t) /\ Wr(t)
          /\ shared' = Append(shared, x) /\ UNCHANGED local
          /\ Event(t, [op |-> "push", x |-> x, pos |-> None])
          /\ Abs(t, O("push_back", x, <<>>))
     ELSE /\ NoLock /\ UNCHANGED shared
          /\ local' = [local EXCEPT ![t] = Append(@, x)]
          /\ Event(t, [op |-> "push", x |-> x, pos |-> None])
          /\ Abs(t, O("push", x, <<>>))

PushFront(t, x) ==
  /\ K = 0 /\ Body(t) /\ Mine(t, x)
  /\ MayWr(t) /\ Wr(t)
  /\ shared' = <<x>> \o shared /\ UNCHANGED local
  /\ Event(t, [op |-> "push", x |-> x, pos |-> None])
  /\ Abs(t, O("push_front", x, <<>>))

\* lists: remember the successor
NextOf(x) == IF Last(shared) = x THEN None ELSE shared[Pos(shared, x) + 1]

Erase(t, x) ==
  /\ K = 0 /\ Body(t) /\ MayWr(t) /\ Wr(t) /\ x \in Range(shared)
  /\ shared' = Without(shared, x) /\ UNCHANGED local
  /\ Event(t, [op |-> "erase", x |-> x, pos |-> NextOf(x)])
  /\ Abs(t, O("erase", x, <<>>))

Pop(t) ==
  /\ K # 0 /\ Body(t)
  /\ LET loc == IF K = 1 THEN shared = <<>> ELSE local[t] # <<>>
     IN IF loc
        THEN /\ local[t] # <<>>
             /\ IF K = 1 THEN MayRd(t) /\ Rd(t) ELSE NoLock
             /\ LET x == IF K = 1 THEN local[t][1] ELSE Last(local[t])
                IN /\ local' = [local EXCEPT ![t] = IF K = 1 THEN Tail(@) ELSE Front(@)]
                   /\ Event(t, [op |-> "popl", x |-> x, pos |-> None])
             /\ UNCHANGED shared
        ELSE /\ shared # <<>> /\ MayWr(t) /\ Wr(t)
             /\ LET x == IF K = 1 THEN shared[1] ELSE Last(shared)
                IN /\ shared' = IF K = 1 THEN Tail(shared) ELSE Front(shared)
                   /\ Event(t, [op |-> "pops", x |-> x, pos |-> None])
             /\ UNCHANGED local
  /\ Abs(t, O("pop", None, <<>>))

Read(t) ==
  /\ Body(t) /\ UNCHANGED <<shared, local, ev>>
  /\ \/ /\ K = 0 /\ MayRd(t) /\ Rd(t) /\ Abs(t, O("iter", None, shared))
     \/ /\ K = 1 /\ MayRd(t) /\ Rd(t)
        /\ shared # <<>> \/ local[t] # <<>>
        /\ Abs(t, O("front", None, <<IF shared # <<>> THEN shared[1] ELSE local[t][1]>>))
     \/ /\ K = 2
        /\ IF local[t] # <<>> THEN NoLock ELSE MayRd(t) /\ Rd(t) /\ shared # <<>>
        /\ Abs(t, O("top", None, <<IF local[t] # <<>> THEN Last(local[t]) ELSE Last(shared)>>))
     \/ /\ K # 0 /\ MayRd(t) /\ Rd(t) /\ Abs(t, O("size", None, <<Len(shared) + Len(local[t])>>))

\* prepare: take the lock if there are local entries; then the abstract commit
Prepare(t) ==
  /\ pc[t] = "body"
  /\ IF local[t] # <<>> THEN MayWr(t) /\ Wr(t) ELSE NoLock
  /\ pc' = [pc EXCEPT ![t] = "apply"] /\ ix' = [ix EXCEPT ![t] = 1]
  /\ LET r == Replay(Kind(C), content[C], log[t][C])
     IN /\ good' = (good /\ r.ok)
        /\ content' = [content EXCEPT ![C] = r.s]
        /\ phase' = [phase EXCEPT ![t] = "commit"] /\ UNCHANGED log
  /\ UNCHANGED <<shared, local, ev, ops, txs>>

ApplyEvent(t) ==
  /\ pc[t] = "apply" /\ ix[t] <= Len(ev[t])
  /\ LET e == ev[t][ix[t]]
         \* the entry may have been popped again, or be pushed again by a later event
         move == K # 0 /\ e.op = "push" /\ local[t] # <<>> /\ local[t][1] = e.x
     IN IF move THEN shared' = Append(shared, e.x) /\ local' = [local EXCEPT ![t] = Tail(@)]
        ELSE UNCHANGED <<shared, local>>
  /\ ix' = [ix EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<rd, wr, ev, pc, ops, txs, good>> /\ UNCHANGED vars

\* rollback, after a conflict or on request, at any time
StartUndo(t) ==
  /\ pc[t] = "body"
  /\ Undo(t)
  /\ pc' = [pc EXCEPT ![t] = "undo"] /\ ix' = [ix EXCEPT ![t] = Len(ev[t])]
  /\ UNCHANGED <<shared, rd, wr, local, ev, ops, txs, good>>

UndoEvent(t) ==
  /\ pc[t] = "undo" /\ ix[t] >= 1
  /\ LET e == ev[t][ix[t]]
     IN CASE e.op = "push" /\ K = 0 -> shared' = Without(shared, e.x) /\ UNCHANGED local
          [] e.op = "push" /\ K # 0 -> local' = [local EXCEPT ![t] = Without(@, e.x)] /\ UNCHANGED shared
          [] e.op = "erase" -> shared' = (IF e.pos = None THEN Append(shared, e.x) ELSE InsertAt(shared, Pos(shared, e.pos), e.x)) /\ UNCHANGED local
          [] e.op = "pops" -> shared' = (IF K = 1 THEN <<e.x>> \o shared ELSE Append(shared, e.x)) /\ UNCHANGED local
          [] OTHER -> local' = [local EXCEPT ![t] = IF K = 1 THEN <<e.x>> \o @ ELSE Append(@, e.x)] /\ UNCHANGED shared
  /\ ix' = [ix EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<rd, wr, ev, pc, ops, txs, good>> /\ UNCHANGED vars

IFinish(t) ==
  /\ \/ pc[t] = "apply" /\ ix[t] > Len(ev[t])
     \/ pc[t] = "undo" /\ ix[t] = 0
  /\ Finish(t)
  /\ rd' = rd \ {t} /\ wr' = wr \ {t}
  /\ ev' = [ev EXCEPT ![t] = <<>>]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ ix' = [ix EXCEPT ![t] = 0] /\ ops' = [ops EXCEPT ![t] = 0]
  /\ UNCHANGED <<shared, local, txs, good>>

INext == \E t \in Thread :
  \/ IBegin(t) \/ Prepare(t) \/ ApplyEvent(t) \/ StartUndo(t) \/ UndoEvent(t) \/ IFinish(t)
  \/ \E x \in Entry : Push(t, x) \/ PushFront(t, x) \/ Erase(t, x)
  \/ Pop(t) \/ Read(t)

ISpec == IInit /\ [][INext]_allvars /\ \A t \in Thread : WF_allvars(IFinish(t)) /\ WF_allvars(ApplyEvent(t)) /\ WF_allvars(UndoEvent(t))

ResultsAllowed == good
Agreement == wr = {} => shared = content[C]
LocalEmpty == \A t \in Thread : pc[t] = "idle" => local[t] = <<>>
Exclusive == Cardinality(wr) <= 1 /\ \A t \in wr : rd \subseteq {t}
Ends == \A t \in Thread : pc[t] \in {"apply", "undo"} ~> pc[t] = "idle"
=============================================================================
