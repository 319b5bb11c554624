---------------------------- MODULE TxFileTrace ----------------------------
EXTENDS TxFile, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
B(x) == x = 1
Tab(ls, key(_), val(_)) == [k \in {key(ls[i]) : i \in DOMAIN ls} |-> val(ls[CHOOSE i \in DOMAIN ls : key(ls[i]) = k])]
NamesOf(e) == LET K(x) == x.n V(x) == x.f IN Tab(e.names, K, V)
FilesOf(e) == LET K(x) == x.f V(x) == [k |-> x.k, m |-> x.m, d |-> x.d] IN Tab(e.files, K, V)
FdsOf(e) == LET K(x) == x.fd V(x) == [f |-> x.f, off |-> x.off, acc |-> x.acc, app |-> B(x.app), ce |-> B(x.ce)] IN Tab(e.fds, K, V)
LookOk(e) ==
  /\ Must(NamesOf(e) = names)
  /\ Must(FdsOf(e) = [fd \in DOMAIN fds |-> LET o == ofd[fds[fd].o] IN [f |-> o.f, off |-> o.off, acc |-> o.acc, app |-> o.app, ce |-> fds[fd].ce]])
  /\ Must(\A f \in DOMAIN FilesOf(e) : LET x == FilesOf(e)[f] IN f \in DOMAIN data /\ x.k = kind[f] /\ x.m = mode[f] /\ x.d = data[f])
OnFd(o) == o.n \notin {"open", "mkstemp", "pipe"}
Outcome(o, fd, fid, name) ==
  IF OnFd(o) /\ o.fd \notin DOMAIN fds THEN Fail(EBADF) ELSE
  CASE o.n = "open" -> DoOpen(o.name, o.acc, B(o.cr), B(o.ex), B(o.app), B(o.ce), B(o.tc), o.m, fd, fid)
    [] o.n = "mkstemp" -> DoOpen(name, "rw", TRUE, TRUE, FALSE, FALSE, FALSE, 384, fd, fid)
    [] o.n = "pipe" -> DoPipe(fd, IF fd = 0 THEN 0 ELSE Ev.fd2, fid)
    [] o.n = "dup" -> DoDup(o.fd, o.start, B(o.ce), fd)
    [] o.n = "close" -> DoClose(o.fd)
    [] o.n = "read" -> DoRead(o.fd, o.len)
    [] o.n = "pread" -> DoPread(o.fd, o.len, o.off)
    [] o.n = "write" -> DoWrite(o.fd, o.b)
    [] o.n = "pwrite" -> DoPwrite(o.fd, o.b, o.off)
    [] o.n = "lseek" -> DoLseek(o.fd, o.off, o.wh)
    [] o.n = "fstat" -> DoFstat(o.fd)
    [] o.n = "fchmod" -> DoFchmod(o.fd, o.m)
    [] o.n = "fsync" -> Good(St, 0)
    [] o.n = "getfd" -> DoGetfd(o.fd)
    [] o.n = "setfd" -> DoSetfd(o.fd, o.v)
    [] o.n = "getfl" -> DoGetfl(o.fd)
    [] o.n = "getlk" -> DoGetlk(o)
    [] o.n = "setlk" -> DoSetlk(o)
NewFd(o) == o.n \in {"open", "mkstemp", "dup", "pipe"}
OutOk(o, x) ==
  CASE NewFd(o) -> Ev.fd \notin DOMAIN fds /\ (o.n = "dup" => Ev.fd >= o.start) /\ (o.n = "pipe" => Ev.fd2 \notin DOMAIN fds /\ Ev.fd2 # Ev.fd)
    [] o.n = "read" \/ o.n = "pread" -> Ev.b = x.out
    [] o.n \in {"write", "pwrite", "lseek", "getfd"} -> Ev.r = x.out
    [] o.n = "fstat" -> Ev.k = x.out[1] /\ Ev.m = x.out[2] /\ (Ev.k = "f" => Ev.z = x.out[3])
    [] o.n = "getfl" -> Ev.acc = x.out[1] /\ B(Ev.app) = x.out[2]
    [] o.n = "getlk" -> Ev.t = x.out[1] /\ Ev.s = x.out[2] /\ Ev.l = x.out[3]
    [] o.n = "setlk" -> Ev.t = "?" \/ (IF o.t = "u" THEN Ev.t = "u" ELSE Ev.t = x.out[1] /\ Ev.s = x.out[2] /\ Ev.l = x.out[3])
    [] OTHER -> TRUE
RetOk ==
  LET x == IF NewFd(pend) THEN Outcome(pend, Ev.fd, Ev.fid, Ev.name) ELSE Outcome(pend, 0, 0, "") IN
  /\ Must(x.ok) /\ Must(OutOk(pend, x))
  /\ Ret(x, (IF NewFd(pend) /\ pend.n # "mkstemp" THEN {Ev.fd} \cup (IF pend.n = "pipe" THEN {Ev.fd2} ELSE {}) ELSE {}) \cup IF OnFd(pend) THEN {pend.fd} ELSE {})
NeedsIrr(o) == ~irr /\ IF o.n = "open" THEN B(o.tc) ELSE o.n \in {"setfd", "setlk"} /\ o.fd \in DOMAIN fds
UndoOk ==
  IF phase = "call" THEN
    LET x == Outcome(pend, 0, 0, "?") IN
    IF OnFd(pend) /\ Refused(pend.fd) THEN Undo(EBADF)
    ELSE IF NeedsIrr(pend) THEN Undo(-1)
    ELSE Must(~x.ok) /\ Undo(x.e)
  ELSE Undo(0)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ Is("reset") /\ phase' = "idle" /\ irr' = FALSE /\ pend' = None /\ expect' = 0
     /\ names' = NamesOf(Ev) /\ kind' = [f \in DOMAIN FilesOf(Ev) |-> FilesOf(Ev)[f].k]
     /\ data' = [f \in DOMAIN FilesOf(Ev) |-> FilesOf(Ev)[f].d] /\ mode' = [f \in DOMAIN FilesOf(Ev) |-> FilesOf(Ev)[f].m]
     /\ tdata' = data' /\ ofd' = Empty /\ fds' = Empty /\ toff' = Empty /\ closing' = {} /\ used' = {} /\ fresh' = {}
     /\ saved' = [fds |-> Empty, mode |-> Empty]
  \/ Is("begin") /\ Begin(Ev.irr = 1) /\ Must(expect = -1 => Ev.irr = 1)
  \/ Is("call") /\ Call(Ev)
  \/ Is("ret") /\ Must(~NeedsIrr(pend)) /\ RetOk
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev")) /\ Stop
  \/ Is("fault") /\ Fault
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ UndoOk
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.nr = 0) /\ Must(expect > 0 => Ev.st = 4) /\ Recover(Ev.v)
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("rclose") /\ RClose(Ev.fd)
  \/ Is("runlink") /\ RUnlink(Ev.name)
  \/ Is("ropen") /\ ROpen(Ev.fd, Ev.name, Ev.acc, B(Ev.app))
  \/ Is("rdup") /\ RDup(Ev.old, Ev.fd)
  \/ /\ Is("look") /\ phase \in {"idle", "exec", "recovery"} /\ UNCHANGED vars /\ LookOk(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
