--------------------------- MODULE TxStreamTrace ---------------------------
EXTENDS TxStream, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
B(x) == x = 1
Tab(ls, key(_), val(_)) == [k \in {key(ls[i]) : i \in DOMAIN ls} |-> val(ls[CHOOSE i \in DOMAIN ls : key(ls[i]) = k])]
OnFd(o) == o.n \notin {"pipe", "open", "socket"}
Fds(o) == IF o.n \in {"dup", "open", "socket", "accept"} THEN {Ev.fd} ELSE IF o.n = "pipe" THEN {Ev.fd, Ev.fd2} ELSE {}
(* r: the call's return, or a record without content when the call has failed *)
Outcome(o, r) ==
  IF OnFd(o) /\ o.fd \notin DOMAIN fds THEN Fail(EBADF) ELSE
  CASE o.n = "write" -> IF irr /\ Ofd(o.fd).nb /\ r.r # Len(o.b) THEN DoWritePart(o.fd, o.b, IF r.r < 0 THEN 0 ELSE r.r) ELSE DoWrite(o.fd, o.b)
    [] o.n = "send" -> DoSend(o.fd, o.b)
    [] o.n = "read" -> DoRead(o.fd, o.len, FALSE)
    [] o.n = "recv" -> DoRecv(o.fd, o.len, B(o.peek))
    [] o.n = "dup" -> DoDup(o.fd, r.fd)
    [] o.n = "close" -> DoClose(o.fd)
    [] o.n = "pipe" -> DoPipe(r.fd, r.fd2, r.f, r.c)
    [] o.n = "open" -> DoOpen(o.f, o.c, B(o.nb), r.fd)
    [] o.n = "socket" -> DoSocket(r.fd, r.f)
    [] o.n = "connect" -> DoConnect(o.fd, o.c, o.d)
    [] o.n = "accept" -> DoAccept(r.fd, r.f)
    [] o.n = "shutdown" -> DoShutdown(o.fd)
    [] o.n = "setfl" -> DoSetfl(o.fd, B(o.nb))
    [] o.n = "getfl" -> DoGetfl(o.fd)
    [] o.n = "bind" -> DoBind(o.fd, o.x)
    [] o.n = "listen" -> DoListen(o.fd)
    [] o.n = "fstat" -> DoFstat(o.fd)
    [] o.n = "ctl" -> DoCtl(o.fd, o.re)
    [] o.n \in {"lseek", "pread", "pwrite"} -> Fail(ESPIPE)
    [] o.n = "fsync" -> Fail(EINVAL)
NoRet == [r |-> 0, fd |-> -1, fd2 |-> -2, f |-> 0, c |-> -1]
(* accept() fills the memory with the name of the peer, as far as there is room, and tells its whole length *)
PeerName == LET n == IF Ev.room < Len(Ev.peer) THEN Ev.room ELSE Len(Ev.peer) IN
            Ev.len = Len(Ev.peer) /\ Ev.addr = SubSeq(Ev.peer, 1, n) \o [i \in 1..Len(Ev.addr) - n |-> 238]
(* a write's value may be smaller only if the descriptor does not block and somebody has filled the channel *)
OutOk(o, x) ==
  CASE o.n = "write" -> IF irr /\ Ofd(o.fd).nb THEN Ev.r <= Len(o.b) /\ (Ev.r <= 0 /\ Len(o.b) > 0 => q[Ofd(o.fd).w] # <<>>) ELSE Ev.r = x.out
    [] o.n = "send" -> Ev.r = x.out
    [] o.n \in {"read", "recv"} -> Ev.r = x.out.n /\ Ev.b = x.out.b
    [] o.n = "getfl" -> Ev.acc = x.out[1] /\ B(Ev.nb) = x.out[2]
    [] o.n = "bind" -> Ev.here = 1
    [] o.n = "fstat" -> B(Ev.sock) = x.out[1] /\ Ev.f = x.out[2] /\ Ev.same = 1
    [] o.n = "ctl" -> Ev.r = x.out
    [] o.n = "pipe" -> Ev.c \notin DOMAIN q
    [] o.n = "accept" -> IF Ev.how < 2 THEN TRUE ELSE PeerName
    [] OTHER -> TRUE
NeedsIrr(o) ==
  /\ ~irr
  /\ IF o.n \in {"read", "setfl", "connect", "accept"} THEN o.fd \in DOMAIN fds
     ELSE IF o.n \in {"recv", "shutdown", "bind", "listen"} THEN o.fd \in DOMAIN fds /\ Ofd(o.fd).sock
     ELSE IF o.n = "ctl" THEN o.fd \in DOMAIN fds /\ o.what \in {"setlk", "setown"}
     ELSE o.n = "send" /\ o.fd \in DOMAIN fds /\ Ofd(o.fd).sock /\ B(o.fl)
RetOk ==
  LET x == Outcome(pend, Ev) IN
  /\ Must(x.ok) /\ Must(Fds(pend) \cap DOMAIN fds = {}) /\ Must(OutOk(pend, x))
  /\ Ret(x, Fds(pend) \cup IF OnFd(pend) THEN {pend.fd} ELSE {})
UndoOk ==
  IF phase = "call" THEN
    IF OnFd(pend) /\ Refused(pend.fd) THEN Undo(EBADF)
    ELSE IF NeedsIrr(pend) THEN Undo(-1)
    ELSE LET x == Outcome(pend, NoRet) IN Must(~x.ok) /\ Undo(x.e)
  ELSE Undo(0)
Reset(e) ==
  LET KO(x) == x.o  VO(x) == [f |-> x.f, w |-> x.w, r |-> x.r, sock |-> B(x.sock), msg |-> B(x.msg), nb |-> B(x.nb), acc |-> x.acc, bound |-> FALSE, lis |-> FALSE]
      KF(x) == x.fd VF(x) == x.o
      Cs == {e.ofds[i].w : i \in DOMAIN e.ofds} \cup {e.ofds[i].r : i \in DOMAIN e.ofds}
  IN /\ ofd' = Tab(e.ofds, KO, VO) /\ fds' = Tab(e.fds, KF, VF) /\ q' = [c \in Cs |-> <<>>] /\ shut' = {} /\ paths' = {} /\ lq' = <<>>
     /\ tlog' = <<>> /\ closing' = {} /\ used' = {} /\ saved' = Empty /\ irr' = FALSE /\ pend' = None /\ expect' = 0 /\ phase' = "idle"
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ Reset(Ev)
  \/ Is("begin") /\ Begin(Ev.irr = 1)
  \/ Is("call") /\ Call(Ev)
  \/ Is("ret") /\ Must(~NeedsIrr(pend)) /\ RetOk
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev")) /\ Stop
  \/ Is("fault") /\ Fault
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ UndoOk
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.nr = 0) /\ Must(expect > 0 => Ev.st = 4) /\ Recover(Ev.v)
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("look") /\ Look(Ev.c, Ev.n, B(Ev.eof))
  \/ Is("drain") /\ Drain(Ev.c, Ev.b)
  \/ Is("rwrite") /\ RWrite(Ev.fd, Ev.b)
  \/ Is("rclose") /\ RClose(Ev.fd)
  \/ Is("rdup") /\ RDup(Ev.old, Ev.fd)
  \/ Is("rconnect") /\ RConnect(Ev.fd, Ev.f, Ev.c, Ev.d)
  \/ Is("raccept") /\ RAccept(Ev.fd, Ev.f)
  \/ Is("sock") /\ phase \in {"idle", "exec", "recovery"} /\ UNCHANGED vars
     /\ IF Ev.fd \in DOMAIN fds THEN Must(B(Ev.bound) = Ofd(Ev.fd).bound /\ B(Ev.lis) = Ofd(Ev.fd).lis) ELSE TRUE
  \/ Is("fds") /\ Must(phase \in {"idle", "exec", "recovery"}) /\ Must({Ev.fds[i] : i \in DOMAIN Ev.fds} = DOMAIN fds) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
