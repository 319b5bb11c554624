------------------------------ MODULE TxFileC ------------------------------
(* Concurrent transactions on regular files. data, mode and off are the       *)
(* committed contents, permission bits and file offsets of the descriptors    *)
(* that all threads share. Each thread keeps its operations with their        *)
(* results. A result has to be the one that the operation has when the        *)
(* transaction's operations are executed on the committed files; at the time  *)
(* of the operation and again when the transaction commits. So committed      *)
(* transactions behave as if they had run one at a time, in the order of      *)
(* their commits, and no attempt sees data of an uncommitted one.             *)
EXTENDS FileOps, FiniteSets
CONSTANTS Thread
VARIABLES data, mode,  \* file -> contents, permission bits
          ofd,         \* shared open file description -> [f, off, app]
          fdo,         \* shared descriptor -> open file description
          ph, irr, log, pend,
          use,         \* thread -> descriptors used by its attempt, with their files
          seen,        \* thread -> such pairs of all threads since the call that is under way
          want,        \* thread -> how its attempt has been asked to end
          expect       \* thread -> error that the recovery phase has to see
vars == <<data, mode, ofd, fdo, ph, irr, log, pend, use, seen, want, expect>>
None == [n |-> "none"]
Empty == [x \in {} |-> 0]
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
EBADF == 9
(* execution of operations on s: [d: contents, m: modes, o: shared descriptions, p: descriptors that the transaction opened] *)
Start == [d |-> data, m |-> mode, o |-> ofd, p |-> Empty]
Desc(s, fd) == IF fd \in DOMAIN s.p THEN s.p[fd] ELSE s.o[fdo[fd]]
SetOff(s, fd, k) == IF fd \in DOMAIN s.p THEN [s EXCEPT !.p[fd].off = k] ELSE [s EXCEPT !.o[fdo[fd]].off = k]
Do(s, op) ==
  IF op.n = "open" THEN [s |-> [s EXCEPT !.p = Ext(s.p, op.fd, [f |-> op.f, off |-> 0, app |-> op.app = 1])], r |-> 0]
  ELSE
  LET c == Desc(s, op.fd)  d == s.d[c.f] IN
  CASE op.n = "read" -> LET b == ReadAt(d, c.off, op.len) IN [s |-> SetOff(s, op.fd, c.off + Len(b)), r |-> b]
    [] op.n = "pread" -> [s |-> s, r |-> ReadAt(d, op.off, op.len)]
    [] op.n = "write" -> LET at == IF c.app THEN Len(d) ELSE c.off IN
         [s |-> IF op.b = <<>> THEN s ELSE SetOff([s EXCEPT !.d[c.f] = WriteAt(d, at, op.b)], op.fd, at + Len(op.b)), r |-> Len(op.b)]
    [] op.n = "pwrite" -> [s |-> [s EXCEPT !.d[c.f] = WriteAt(d, IF c.app THEN Len(d) ELSE op.off, op.b)], r |-> Len(op.b)]
    [] op.n = "seek" -> LET to == CASE op.wh = "set" -> op.off [] op.wh = "cur" -> c.off + op.off [] op.wh = "end" -> Len(d) + op.off IN
         [s |-> SetOff(s, op.fd, to), r |-> to]
    [] op.n = "fstat" -> [s |-> s, r |-> <<s.m[c.f], Len(d)>>]
    [] op.n = "fchmod" -> [s |-> [s EXCEPT !.m[c.f] = op.m], r |-> 0]
    [] op.n = "close" -> [s |-> s, r |-> 0]
Run(ops) == LET RECURSIVE R(_, _)
                R(s, i) == IF i > Len(ops) THEN s ELSE R(Do(s, ops[i].op).s, i + 1)
            IN R(Start, 1)
AllSame(ops) == LET RECURSIVE R(_, _)
                    R(s, i) == IF i > Len(ops) THEN TRUE ELSE LET x == Do(s, ops[i].op) IN x.r = ops[i].r /\ R(x.s, i + 1)
                IN R(Start, 1)
-----------------------------------------------------------------------------
InitThreads ==
        /\ ph = [t \in Thread |-> "out"] /\ irr = [t \in Thread |-> FALSE] /\ log = [t \in Thread |-> <<>>]
        /\ pend = [t \in Thread |-> None] /\ use = [t \in Thread |-> {}] /\ seen = [t \in Thread |-> {}]
        /\ want = [t \in Thread |-> "none"] /\ expect = [t \in Thread |-> 0]
Init == data = Empty /\ mode = Empty /\ ofd = Empty /\ fdo = Empty /\ InitThreads
Base == <<data, mode, ofd, fdo>>
In(u) == ph[u] \in {"exec", "prep", "apply", "undo"}
Begin(t, i) ==
  /\ ph[t] \in {"out", "undone"} /\ ph' = [ph EXCEPT ![t] = "exec"] /\ irr' = [irr EXCEPT ![t] = i]
  \* an irrevocable transaction runs alone
  /\ \A u \in Thread \ {t} : In(u) => ~irr[u] /\ ~i
  /\ log' = [log EXCEPT ![t] = <<>>] /\ pend' = [pend EXCEPT ![t] = None] /\ use' = [use EXCEPT ![t] = {}]
  /\ want' = [want EXCEPT ![t] = "none"] /\ expect' = [expect EXCEPT ![t] = 0]
  /\ UNCHANGED <<Base, seen>>
FileOf(t, op) == IF op.n = "open" THEN op.f ELSE Desc(Run(log[t]), op.fd).f
Call(t, op) ==
  /\ ph[t] = "exec" /\ pend[t] = None /\ want[t] = "none" /\ pend' = [pend EXCEPT ![t] = op]
  \* the descriptor of an open file is not known yet
  /\ LET x == {<<IF op.n = "open" THEN -1 - t ELSE op.fd, FileOf(t, op)>>} IN
     /\ use' = [use EXCEPT ![t] = @ \cup x]
     /\ seen' = [u \in Thread |-> IF u = t THEN UNION {use[v] : v \in Thread} ELSE seen[u] \cup x]
  /\ UNCHANGED <<Base, ph, irr, log, want, expect>>
Ret(t, op, r) ==
  /\ ph[t] = "exec" /\ pend[t] # None /\ pend' = [pend EXCEPT ![t] = None]
  /\ Do(Run(log[t]), op).r = r
  /\ log' = [log EXCEPT ![t] = Append(@, [op |-> op, r |-> r])]
  /\ LET x == IF op.n = "open" THEN {<<op.fd, op.f>>} ELSE {} IN
     use' = [use EXCEPT ![t] = @ \cup x] /\ seen' = [u \in Thread |-> seen[u] \cup x]
  /\ UNCHANGED <<Base, ph, irr, want, expect>>
(* the program makes the attempt fail *)
Request(t, w, e) == /\ ph[t] = "exec" /\ pend[t] = None /\ want' = [want EXCEPT ![t] = w] /\ expect' = [expect EXCEPT ![t] = e]
                    /\ UNCHANGED <<Base, ph, irr, log, pend, use, seen>>
Prepare(t) == /\ ph[t] = "exec" /\ pend[t] = None /\ want[t] = "none" /\ ph' = [ph EXCEPT ![t] = "prep"]
              /\ UNCHANGED <<Base, irr, log, pend, use, seen, want, expect>>
Apply(t) ==
  /\ ph[t] = "prep" /\ ph' = [ph EXCEPT ![t] = "apply"]
  /\ AllSame(log[t])
  /\ LET s == Run(log[t]) IN data' = s.d /\ mode' = s.m /\ ofd' = s.o
  /\ UNCHANGED <<fdo, irr, log, pend, use, seen, want, expect>>
(* descriptors whose file is in use through another one may be refused; anything else that fails is a conflict *)
Refusable(t) == pend[t].n \notin {"none", "open"} /\ \E x \in seen[t] : x[1] # pend[t].fd /\ x[2] = FileOf(t, pend[t])
Undo(t) ==
  /\ ph[t] \in {"exec", "prep"} /\ ph' = [ph EXCEPT ![t] = "undo"]
  /\ expect' = [expect EXCEPT ![t] = IF want[t] = "err" THEN @ ELSE IF Refusable(t) THEN EBADF ELSE 0]
  /\ irr[t] => want[t] = "err" \/ Refusable(t)     \* nobody conflicts with an irrevocable transaction
  /\ UNCHANGED <<Base, irr, log, pend, use, seen, want>>
Finish(t) == /\ ph[t] \in {"apply", "undo"} /\ ph' = [ph EXCEPT ![t] = IF @ = "apply" THEN "done" ELSE "undone"]
             /\ log' = [log EXCEPT ![t] = <<>>] /\ pend' = [pend EXCEPT ![t] = None]
             /\ UNCHANGED <<Base, irr, use, seen, want, expect>>
Recover(t, e) == /\ ph[t] = "undone" /\ expect[t] # 0 /\ e = expect[t] /\ ph' = [ph EXCEPT ![t] = "rec"]
                 /\ use' = [use EXCEPT ![t] = {}] /\ UNCHANGED <<Base, irr, log, pend, seen, want, expect>>
Again(t) == ph[t] = "rec" /\ ph' = [ph EXCEPT ![t] = "undone"] /\ UNCHANGED <<Base, irr, log, pend, use, seen, want, expect>>
End(t) == ph[t] \in {"rec", "done"} /\ ph' = [ph EXCEPT ![t] = "out"]
          /\ use' = [use EXCEPT ![t] = {}] /\ UNCHANGED <<Base, irr, log, pend, seen, want, expect>>
=============================================================================
