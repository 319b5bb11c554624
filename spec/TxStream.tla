------------------------------ MODULE TxStream ------------------------------
(* Pipes, FIFOs, terminals and sockets in transactions. What a revocable      *)
(* transaction writes is kept until it commits, and is then released in the   *)
(* order of the writes. Input is consumed by irrevocable transactions only,   *)
(* whose output is released at once. Descriptors that a transaction creates   *)
(* go away with a roll back; those that it closes are closed with the commit. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES q,       \* channel -> what has been released and not been consumed: bytes or messages
          shut,    \* channels that no more output goes to
          ofd,     \* open file description -> [f: file, w, r: channels or 0, sock, msg, nb, acc, bound, lis]
          fds,     \* descriptor -> open file description
          paths,   \* names that sockets have been bound to
          lq,      \* connections that have not been accepted: sequence of <<channel to the server, channel from it>>
          tlog,    \* output of the transaction: sequence of [c: channel, b: bytes]
          closing, used, saved, irr, pend, expect, phase
svars == <<q, shut, ofd, fds, paths, lq, tlog, closing, used>>
vars == <<svars, saved, irr, pend, expect, phase>>
Must(p) == p = TRUE
None == [n |-> "none"]
EBADF == 9  EINVAL == 22  ESPIPE == 29  ENOTSOCK == 88  EADDRINUSE == 98
Empty == [x \in {} |-> 0]
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Restrict(f, S) == [y \in DOMAIN f \cap S |-> f[y]]
Live(F) == {F[fd] : fd \in DOMAIN F}
Ofd(fd) == ofd[fds[fd]]
Min2(a, b) == IF a < b THEN a ELSE b
NextO == IF DOMAIN ofd = {} THEN 1 ELSE 1 + (CHOOSE x \in DOMAIN ofd : \A y \in DOMAIN ofd : y <= x)
(* nobody can write to channel c any more *)
Eof(c) == c \in shut \/ ((\A fd \in DOMAIN fds : Ofd(fd).w # c) /\ (\A i \in DOMAIN lq : lq[i][2] # c))
Put(Q, c, msg, b) == IF b = <<>> THEN Q ELSE [Q EXCEPT ![c] = @ \o (IF msg THEN <<b>> ELSE b)]
-----------------------------------------------------------------------------
(* outcomes: error e or the new state s and the result out *)
St == [q |-> q, shut |-> shut, ofd |-> ofd, fds |-> fds, paths |-> paths, lq |-> lq, tlog |-> tlog, closing |-> closing]
Fail(e) == [ok |-> FALSE, e |-> e, s |-> St, out |-> <<>>]
Good(s, out) == [ok |-> TRUE, e |-> 0, s |-> s, out |-> out]
DoWrite(fd, b) ==
  LET c == Ofd(fd).w IN
  IF c = 0 THEN Fail(EBADF)
  ELSE IF irr THEN Good([St EXCEPT !.q = Put(q, c, Ofd(fd).msg, b)], Len(b))
  ELSE Good([St EXCEPT !.tlog = Append(tlog, [c |-> c, msg |-> Ofd(fd).msg, b |-> b])], Len(b))
DoSend(fd, b) == IF ~Ofd(fd).sock THEN Fail(ENOTSOCK) ELSE DoWrite(fd, b)
(* an irrevocable transaction's write to a full non-blocking descriptor writes k bytes *)
DoWritePart(fd, b, k) == DoWrite(fd, SubSeq(b, 1, k))
Input(c, n) == SubSeq(q[c], 1, Min2(n, Len(q[c])))
DoRead(fd, n, peek) ==
  LET c == Ofd(fd).r  b == Input(c, n) IN
  IF c = 0 THEN Fail(EBADF)
  ELSE IF b = <<>> THEN Good(St, IF n = 0 \/ Eof(c) THEN [n |-> 0, b |-> <<>>] ELSE [n |-> -1, b |-> <<>>])
  ELSE Good([St EXCEPT !.q[c] = IF peek THEN @ ELSE SubSeq(@, Len(b) + 1, Len(@))], [n |-> Len(b), b |-> b])
DoRecv(fd, n, peek) == IF ~Ofd(fd).sock THEN Fail(ENOTSOCK) ELSE DoRead(fd, n, peek)
(* reads must not wait *)
Ready(fd, n) == LET c == Ofd(fd).r IN c # 0 => (Ofd(fd).nb \/ Eof(c) \/ Len(q[c]) >= n)
DoDup(fd, r) == Good([St EXCEPT !.fds = Ext(fds, r, fds[fd])], r)
DoClose(fd) == Good([St EXCEPT !.closing = closing \cup {fd}], 0)
New(s, o, d, fd) == [s EXCEPT !.ofd = Ext(s.ofd, o, d), !.fds = Ext(s.fds, fd, o)]
Desc(f, w, r, sock, nb, acc) == [f |-> f, w |-> w, r |-> r, sock |-> sock, msg |-> FALSE, nb |-> nb, acc |-> acc, bound |-> FALSE, lis |-> FALSE]
DoPipe(fd, fd2, f, c) ==
  Good(New(New([St EXCEPT !.q = Ext(q, c, <<>>)], NextO, Desc(f, 0, c, FALSE, FALSE, "r"), fd), NextO + 1, Desc(f, c, 0, FALSE, FALSE, "w"), fd2), 0)
DoOpen(f, c, nb, fd) == Good(New(St, NextO, Desc(f, c, 0, FALSE, nb, "w"), fd), fd)
DoSocket(fd, f) == Good(New(St, NextO, Desc(f, 0, 0, TRUE, FALSE, "rw"), fd), fd)
DoConnect(fd, c, d) ==
  Good([St EXCEPT !.q = Ext(Ext(q, c, <<>>), d, <<>>), !.ofd[fds[fd]].w = c, !.ofd[fds[fd]].r = d, !.lq = Append(lq, <<c, d>>)], 0)
DoAccept(fd, f) == Good(New([St EXCEPT !.lq = Tail(lq)], NextO, Desc(f, Head(lq)[2], Head(lq)[1], TRUE, FALSE, "rw"), fd), fd)
DoShutdown(fd) == IF ~Ofd(fd).sock THEN Fail(ENOTSOCK) ELSE Good([St EXCEPT !.shut = shut \cup {Ofd(fd).w}], 0)
DoBind(fd, x) ==
  IF ~Ofd(fd).sock THEN Fail(ENOTSOCK) ELSE IF Ofd(fd).bound THEN Fail(EINVAL) ELSE IF x \in paths THEN Fail(EADDRINUSE)
  ELSE Good([St EXCEPT !.ofd[fds[fd]].bound = TRUE, !.paths = paths \cup {x}], 0)
DoListen(fd) ==
  IF ~Ofd(fd).sock THEN Fail(ENOTSOCK) ELSE IF ~Ofd(fd).bound THEN Fail(EINVAL)
  ELSE Good([St EXCEPT !.ofd[fds[fd]].lis = TRUE], 0)
DoFstat(fd) == Good(St, <<Ofd(fd).sock, Ofd(fd).f>>)
(* e: what the system says *)
DoCtl(fd, e) == IF e # 0 THEN Fail(e) ELSE Good(St, 1)
DoSetfl(fd, nb) == Good([St EXCEPT !.ofd[fds[fd]].nb = nb], 0)
DoGetfl(fd) == Good(St, <<Ofd(fd).acc, Ofd(fd).nb>>)
(* a connection whose other end has been accepted, and has been closed since, is not covered *)
-----------------------------------------------------------------------------
Init == /\ paths = {} /\ q = Empty /\ shut = {} /\ ofd = Empty /\ fds = Empty /\ lq = <<>> /\ tlog = <<>> /\ closing = {} /\ used = {}
        /\ saved = Empty /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle"
Keep == UNCHANGED <<svars, saved, irr, pend, expect>>
Begin(i) == /\ phase \in {"idle", "undone", "restart"} /\ phase' = "exec" /\ (expect = -1 => i)
            /\ saved' = fds /\ irr' = i /\ expect' = 0 /\ tlog' = <<>> /\ closing' = {} /\ used' = {}
            /\ UNCHANGED <<q, shut, ofd, fds, paths, lq, pend>>
Call(op) == phase = "exec" /\ pend' = op /\ phase' = "call" /\ UNCHANGED <<svars, saved, irr, expect>>
Become(s) == q' = s.q /\ shut' = s.shut /\ ofd' = s.ofd /\ fds' = s.fds /\ paths' = s.paths /\ lq' = s.lq /\ tlog' = s.tlog /\ closing' = s.closing
Ret(x, u) == /\ phase = "call" /\ x.ok /\ Become(x.s) /\ used' = used \cup u
             /\ pend' = None /\ phase' = "exec" /\ UNCHANGED <<saved, irr, expect>>
(* descriptors whose file is in use through another one may be refused *)
Refused(fd) == fd \in DOMAIN fds /\ fd \notin used /\ \E g \in used \cap DOMAIN fds : Ofd(g).f = Ofd(fd).f
Undo(e) == /\ phase \in {"call", "fail"} /\ phase' = "undo"
           /\ fds' = saved /\ ofd' = Restrict(ofd, Live(saved)) /\ tlog' = <<>> /\ closing' = {} /\ used' = {}
           /\ expect' = e /\ pend' = None /\ UNCHANGED <<q, shut, paths, lq, saved, irr>>
Stop == phase = "exec" /\ phase' = "fail" /\ Keep
Fault == phase = "commit" /\ phase' = "fail" /\ Keep
Commit == phase = "exec" /\ phase' = "commit" /\ Keep
RECURSIVE Release(_, _)
Release(Q, s) == IF s = <<>> THEN Q ELSE Release(Put(Q, Head(s).c, Head(s).msg, Head(s).b), Tail(s))
Apply == /\ phase = "commit" /\ phase' = "apply"
         /\ q' = Release(q, tlog)
         /\ fds' = Restrict(fds, DOMAIN fds \ closing) /\ ofd' = Restrict(ofd, Live(fds'))
         /\ tlog' = <<>> /\ closing' = {} /\ used' = {} /\ UNCHANGED <<shut, paths, lq, saved, irr, pend, expect>>
Finish == Keep /\ \/ phase = "apply" /\ phase' = "done"
                  \/ phase = "undo" /\ phase' = "undone"
Recover(e) == phase = "undone" /\ (expect \in {0, e}) /\ phase' = "recovery" /\ Keep
Restart == phase = "recovery" /\ phase' = "restart" /\ Keep
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ Keep
(* the rest of the world *)
Env == UNCHANGED <<paths, tlog, closing, used, saved, irr, pend, expect, phase>>
Look(c, n, e) == phase \in {"idle", "exec", "recovery"} /\ UNCHANGED vars /\ n = Len(q[c]) /\ e = Eof(c)
Drain(c, b) == /\ phase \in {"idle", "exec", "recovery"} /\ q[c] = b /\ q' = [q EXCEPT ![c] = <<>>]
               /\ UNCHANGED <<shut, ofd, fds, lq>> /\ Env
RWrite(fd, b) == phase = "idle" /\ q' = Put(q, Ofd(fd).w, Ofd(fd).msg, b) /\ UNCHANGED <<shut, ofd, fds, lq>> /\ Env
RClose(fd) == /\ phase = "idle" /\ fds' = Restrict(fds, DOMAIN fds \ {fd}) /\ ofd' = Restrict(ofd, Live(fds')) /\ UNCHANGED <<q, shut, lq>> /\ Env
RDup(o, fd) == phase = "idle" /\ fds' = Ext(fds, fd, fds[o]) /\ UNCHANGED <<q, shut, ofd, lq>> /\ Env
RConnect(fd, f, c, d) == /\ phase = "idle" /\ q' = Ext(Ext(q, c, <<>>), d, <<>>) /\ lq' = Append(lq, <<c, d>>)
                         /\ ofd' = Ext(ofd, NextO, Desc(f, c, d, TRUE, FALSE, "rw")) /\ fds' = Ext(fds, fd, NextO) /\ UNCHANGED shut /\ Env
RAccept(fd, f) == /\ phase = "idle" /\ lq # <<>> /\ LET s == DoAccept(fd, f).s IN ofd' = s.ofd /\ fds' = s.fds /\ lq' = s.lq
                  /\ UNCHANGED <<q, shut>> /\ Env
=============================================================================
