------------------------------- MODULE TxLib -------------------------------
(* Transactional containers of the txlib module: lists, queues, stacks and   *)
(* multisets. Container c is of kind c % 4. An attempt collects operations   *)
(* together with the results it has been given; they must agree with the     *)
(* committed contents plus its own earlier operations, when they are given   *)
(* and again, all together, when the attempt commits.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread, Cont

VARIABLES content,   \* committed contents
          log,       \* operations of the current attempt, by thread and container
          phase      \* "idle", "body", "commit"

vars == <<content, log, phase>>

Kind(c) == c % 4   \* 0 list, 1 queue, 2 stack (top at the end), 3 multiset
Key(x) == x % 5
None == -1
Empty(c) == IF Kind(c) = 3 THEN {} ELSE <<>>

Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Bool(b) == <<IF b THEN 1 ELSE 0>>
Sorted(r) == \A i \in 1..(Len(r) - 1) : Key(r[i]) <= Key(r[i + 1])
Enum(r, S) == Len(r) = Cardinality(S) /\ Range(r) = S  \* each element of S exactly once
WithKey(S, k) == {x \in S : Key(x) = k}

\* what an operation does to a container, and whether its result is right
R(s, ok) == [s |-> s, ok |-> ok]

ListStep(s, o) ==
  CASE o.op = "push_front" -> R(<<o.x>> \o s, o.x \notin Range(s))
    [] o.op = "push_back"  -> R(s \o <<o.x>>, o.x \notin Range(s))
    [] o.op = "pop_front"  -> IF s = <<>> THEN R(s, FALSE) ELSE R(Tail(s), TRUE)
    [] o.op = "pop_back"   -> IF s = <<>> THEN R(s, FALSE) ELSE R(SubSeq(s, 1, Len(s) - 1), TRUE)
    [] o.op = "front"      -> R(s, s # <<>> /\ o.r = <<s[1]>>)
    [] o.op = "back"       -> R(s, s # <<>> /\ o.r = <<s[Len(s)]>>)
    [] o.op = "insert"     -> IF o.p = None THEN R(s \o <<o.x>>, o.x \notin Range(s))
                              ELSE IF o.p \notin Range(s) THEN R(s, FALSE)
                              ELSE R(InsertAt(s, Pos(s, o.p), o.x), o.x \notin Range(s))
    [] o.op = "erase"      -> R(Without(s, o.x), o.x \in Range(s))
    [] o.op = "clear"      -> R(<<>>, TRUE)
    [] o.op = "empty"      -> R(s, o.r = Bool(s = <<>>))
    [] o.op = "size"       -> R(s, o.r = <<Len(s)>>)
    [] o.op = "iter"       -> R(s, o.r = s)
    [] o.op = "riter"      -> R(s, o.r = Rev(s))
    [] OTHER               -> R(s, FALSE)

QueueStep(s, o) ==
  CASE o.op = "push"  -> R(s \o <<o.x>>, o.x \notin Range(s))
    [] o.op = "pop"   -> IF s = <<>> THEN R(s, FALSE) ELSE R(Tail(s), TRUE)
    [] o.op = "front" -> R(s, s # <<>> /\ o.r = <<s[1]>>)
    [] o.op = "back"  -> R(s, s # <<>> /\ o.r = <<s[Len(s)]>>)
    [] o.op = "empty" -> R(s, o.r = Bool(s = <<>>))
    [] o.op = "size"  -> R(s, o.r = <<Len(s)>>)
    [] OTHER          -> R(s, FALSE)

StackStep(s, o) ==
  CASE o.op = "push"  -> R(s \o <<o.x>>, o.x \notin Range(s))
    [] o.op = "pop"   -> IF s = <<>> THEN R(s, FALSE) ELSE R(SubSeq(s, 1, Len(s) - 1), TRUE)
    [] o.op = "top"   -> R(s, s # <<>> /\ o.r = <<s[Len(s)]>>)
    [] o.op = "empty" -> R(s, o.r = Bool(s = <<>>))
    [] o.op = "size"  -> R(s, o.r = <<Len(s)>>)
    [] OTHER          -> R(s, FALSE)

\* entries with equal keys may come in any order, but a range of equal keys is complete
MsetStep(S, o) ==
  CASE o.op = "insert" -> R(S \cup {o.x}, o.x \notin S)
    [] o.op = "erase"  -> R(S \ {o.x}, o.x \in S)
    [] o.op = "clear"  -> R({}, TRUE)
    [] o.op = "find"   -> R(S, IF WithKey(S, o.p) = {} THEN o.r = <<None>>
                               ELSE Len(o.r) = 1 /\ o.r[1] \in WithKey(S, o.p))
    [] o.op = "count"  -> R(S, o.r = <<Cardinality(WithKey(S, o.p))>>)
    [] o.op = "range"  -> R(S, Enum(o.r, WithKey(S, o.p)))     \* from lower bound to upper bound
    \* the entry after the range: the first one with a larger key, or the end; for a missing key the end as well
    [] o.op = "upper"  -> R(S, LET G == {x \in S : Key(x) > o.p}
                                   first == {x \in G : \A y \in G : Key(x) <= Key(y)}
                               IN \/ G = {} /\ o.r = <<None>>
                                  \/ Len(o.r) = 1 /\ o.r[1] \in first
                                  \/ WithKey(S, o.p) = {} /\ o.r = <<None>>)
    [] o.op = "empty"  -> R(S, o.r = Bool(S = {}))
    [] o.op = "size"   -> R(S, o.r = <<Cardinality(S)>>)
    [] o.op = "iter"   -> R(S, Enum(o.r, S) /\ Sorted(o.r))
    [] o.op = "riter"  -> R(S, Enum(o.r, S) /\ Sorted(Rev(o.r)))
    [] OTHER           -> R(S, FALSE)

Step(k, s, o) == CASE k = 0 -> ListStep(s, o) [] k = 1 -> QueueStep(s, o)
                   [] k = 2 -> StackStep(s, o) [] OTHER -> MsetStep(s, o)

RECURSIVE Replay(_, _, _)
Replay(k, s, ops) ==
  IF ops = <<>> THEN R(s, TRUE)
  ELSE LET r == Step(k, s, Head(ops))
       IN IF ~r.ok THEN r ELSE Replay(k, r.s, Tail(ops))

NoOps == [c \in Cont |-> <<>>]

Init == content = [c \in Cont |-> Empty(c)] /\ log = [t \in Thread |-> NoOps] /\ phase = [t \in Thread |-> "idle"]

Begin(t) == phase[t] = "idle" /\ phase' = [phase EXCEPT ![t] = "body"] /\ UNCHANGED <<content, log>>

Op(t, c, o) ==
  LET ops == Append(log[t][c], o)
  IN /\ phase[t] = "body"
     /\ Replay(Kind(c), content[c], ops).ok
     /\ log' = [log EXCEPT ![t][c] = ops]
     /\ UNCHANGED <<content, phase>>

\* the operations of the attempt take effect at once
Apply(t) ==
  LET res == [c \in Cont |-> Replay(Kind(c), content[c], log[t][c])]
  IN /\ phase[t] = "body"
     /\ \A c \in Cont : res[c].ok
     /\ content' = [c \in Cont |-> res[c].s]
     /\ phase' = [phase EXCEPT ![t] = "commit"]
     /\ UNCHANGED log

Undo(t) == phase[t] = "body" /\ phase' = [phase EXCEPT ![t] = "undone"] /\ UNCHANGED <<content, log>>

Finish(t) ==
  /\ phase[t] \in {"commit", "undone"}
  /\ phase' = [phase EXCEPT ![t] = "idle"]
  /\ log' = [log EXCEPT ![t] = NoOps]
  /\ UNCHANGED content

\* the contents found outside of any transaction
Final(c, r) ==
  /\ \A t \in Thread : phase[t] = "idle"
  /\ CASE Kind(c) = 2 -> r = Rev(content[c])
       [] Kind(c) = 3 -> Enum(r, content[c]) /\ Sorted(r)
       [] OTHER -> r = content[c]
  /\ UNCHANGED vars
=============================================================================
