------------------------------- MODULE TxFdC -------------------------------
(* The life of file descriptors that concurrent transactions open, duplicate, close and use. *)
(* A descriptor that a transaction opens vanishes if the transaction rolls back. A descriptor that a transaction *)
(* closes stays until the transaction commits, and until everybody who uses it meanwhile is done with it; *)
(* nobody starts using it after the commit. So a descriptor denotes one file for as long as a transaction uses it. *)
EXTENDS Integers, FiniteSets
CONSTANT Thread
VARIABLES
  obj,      \* descriptor |-> file, for all descriptors that the process has open
  ph,       \* thread |-> "out", "exec", "apply" (committing), "undo" (rolling back), "rec"
  opened,   \* thread |-> descriptors that the current attempt has opened
  closed,   \* thread |-> descriptors that the current attempt closes at commit
  uses,     \* thread |-> descriptors that the current attempt holds
  closing,  \* descriptors of which the closing has been committed
  ended,    \* those of them where the closing transaction is over
  dead,     \* thread |-> descriptors to be closed because the attempt that opened them rolls back
  pend,     \* thread |-> operation in progress
  err       \* thread |-> the application reported an error of its own
vars == <<obj, ph, opened, closed, uses, closing, ended, dead, pend, err>>
None == [n |-> "none", fd |-> -1, f |-> -1, bad |-> FALSE, late |-> FALSE]
EBADF == 9
Empty == [t \in Thread |-> {}]
Init == /\ obj = [x \in {} |-> 0] /\ ph = [t \in Thread |-> "out"] /\ opened = Empty /\ closed = Empty /\ uses = Empty
        /\ closing = {} /\ ended = {} /\ dead = Empty /\ pend = [t \in Thread |-> None]
        /\ err = [t \in Thread |-> FALSE]
Without(g, S) == [x \in DOMAIN g \ S |-> g[x]]
With(g, x, y) == [z \in DOMAIN g \cup {x} |-> IF z = x THEN y ELSE g[z]]
(* operations in progress on unstable descriptors may find them closed *)
Spoil(p, S) == [u \in Thread |-> IF p[u].fd \in S /\ p[u].fd \notin uses[u] THEN [p[u] EXCEPT !.bad = TRUE] ELSE p[u]]
Same(f) == {x \in DOMAIN obj : obj[x] = f}
Foreign(t) == UNION {opened[u] : u \in Thread \ {t}}
Dying == UNION {dead[u] : u \in Thread}
(* descriptors whose file is in use through another one may be refused *)
Shared(x) == x \in DOMAIN obj /\ Same(obj[x]) # {x}

Begin(t) == /\ ph[t] \in {"out", "undo"} /\ ph' = [ph EXCEPT ![t] = "exec"]
            /\ obj' = Without(obj, dead[t]) /\ dead' = [dead EXCEPT ![t] = {}]
            /\ pend' = [pend EXCEPT ![t] = None]
            /\ err' = [err EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<opened, closed, uses, closing, ended>>
Call(t, n, x, f) ==
  /\ ph[t] = "exec" /\ pend[t] = None
  /\ pend' = [pend EXCEPT ![t] =
       [n |-> n, fd |-> x, f |-> f,
        bad |-> n # "open" /\ x \notin uses[t] /\ (Shared(x) \/ x \notin DOMAIN obj \/ x \in closing \cup Dying \cup Foreign(t)),
        late |-> x \in ended /\ x \notin uses[t]]]
  /\ UNCHANGED <<obj, ph, opened, closed, uses, closing, ended, dead, err>>
(* an operation on descriptor x finds file f *)
Use(t, x, f) ==
  /\ x \in DOMAIN obj /\ obj[x] = f /\ ~pend[t].late
  /\ x \notin Foreign(t) \cup Dying           \* nobody sees a descriptor before its opening has been committed
  /\ uses' = [uses EXCEPT ![t] = @ \cup {x}]
Ret(t, x, f) ==
  LET p == pend[t] IN
  /\ ph[t] = "exec" /\ p.n # "none"
  \* new descriptors get the lowest free number; which one this is depends on what becomes of the others
  /\ p.n \in {"open", "dup"} => Foreign(t) = {}
  /\ pend' = [(IF p.n \in {"open", "dup"} THEN Spoil(pend, {x} \cup Same(f)) ELSE pend) EXCEPT ![t] = None]
  /\ CASE p.n = "open" -> f = p.f /\ x \notin DOMAIN obj /\ obj' = With(obj, x, f)
                          /\ uses' = [uses EXCEPT ![t] = @ \cup {x}] /\ opened' = [opened EXCEPT ![t] = @ \cup {x}]
                          /\ UNCHANGED closed
       [] p.n = "dup" -> /\ x \notin DOMAIN obj /\ obj' = With(obj, x, f) /\ p.fd \in DOMAIN obj /\ obj[p.fd] = f /\ ~p.late
                         /\ uses' = [uses EXCEPT ![t] = @ \cup {x, p.fd}]
                         /\ p.fd \notin Foreign(t) \cup Dying
                         /\ opened' = [opened EXCEPT ![t] = @ \cup {x}]
                         /\ UNCHANGED closed
       [] p.n = "close" -> x = p.fd /\ Use(t, x, f) /\ closed' = [closed EXCEPT ![t] = @ \cup {x}]
                           /\ UNCHANGED <<obj, opened>>
       [] p.n \in {"stat", "read"} -> x = p.fd /\ Use(t, x, f)
                                      /\ UNCHANGED <<obj, opened, closed>>
  /\ UNCHANGED <<ph, closing, ended, dead, err>>
Request(t, e) == /\ ph[t] = "exec" /\ err' = [err EXCEPT ![t] = e]
                 /\ UNCHANGED <<obj, ph, opened, closed, uses, closing, ended, dead, pend>>
Apply(t) == /\ ph[t] = "exec" /\ pend[t] = None /\ ph' = [ph EXCEPT ![t] = "apply"]
            /\ closed[t] \subseteq DOMAIN obj \ closing          \* nobody closes a descriptor twice
            /\ closing' = closing \cup closed[t] /\ pend' = Spoil(pend, closed[t])
            /\ opened' = [opened EXCEPT ![t] = {}] /\ uses' = [uses EXCEPT ![t] = {}]
            /\ UNCHANGED <<obj, closed, ended, dead, err>>
Undo(t) == /\ ph[t] = "exec" /\ ph' = [ph EXCEPT ![t] = "undo"]
           /\ dead' = [dead EXCEPT ![t] = opened[t]] /\ opened' = [opened EXCEPT ![t] = {}]
           /\ closed' = [closed EXCEPT ![t] = {}] /\ uses' = [uses EXCEPT ![t] = {}]
           /\ UNCHANGED <<obj, closing, ended, pend, err>>
Recover(t, v) == /\ ph[t] = "undo" /\ ph' = [ph EXCEPT ![t] = "rec"]
                 /\ v = IF err[t] THEN 200 ELSE EBADF
                 /\ err[t] \/ pend[t].bad
                 /\ obj' = Without(obj, dead[t]) /\ dead' = [dead EXCEPT ![t] = {}]
                 /\ pend' = [pend EXCEPT ![t] = None]
                 /\ UNCHANGED <<opened, closed, uses, closing, ended, err>>
Again(t) == ph[t] = "rec" /\ ph' = [ph EXCEPT ![t] = "undo"] /\ UNCHANGED <<obj, opened, closed, uses, closing, ended, dead, pend, err>>
End(t) == /\ ph[t] \in {"apply", "rec"} /\ ph' = [ph EXCEPT ![t] = "out"]
          /\ ended' = ended \cup (closed[t] \cap closing) /\ closed' = [closed EXCEPT ![t] = {}]
          /\ UNCHANGED <<obj, opened, uses, closing, dead, pend, err>>
(* the last user is done *)
Remove(x) == /\ x \in closing /\ \A u \in Thread : x \notin uses[u]
             /\ obj' = Without(obj, {x}) /\ closing' = closing \ {x} /\ ended' = ended \ {x}
             /\ pend' = [u \in Thread |-> IF Spoil(pend, {x})[u].fd = x THEN [Spoil(pend, {x})[u] EXCEPT !.late = FALSE] ELSE pend[u]]
             /\ closed' = [u \in Thread |-> IF ph[u] = "apply" THEN closed[u] \ {x} ELSE closed[u]]
             /\ UNCHANGED <<ph, opened, uses, dead, err>>
Unopen(x) == /\ x \in Dying /\ obj' = Without(obj, {x}) /\ dead' = [u \in Thread |-> dead[u] \ {x}]
             /\ pend' = Spoil(pend, {x})
             /\ UNCHANGED <<ph, opened, closed, uses, closing, ended, err>>
=============================================================================
