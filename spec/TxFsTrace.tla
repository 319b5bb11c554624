----------------------------- MODULE TxFsTrace -----------------------------
EXTENDS TxFs, Json, IOUtils, TLC
VARIABLES l, rootlen
tvars == <<vars, l, rootlen>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
Range(s) == {s[i] : i \in DOMAIN s}
(* listing: sequence of [p, k, m, z, t, c], c: index of the first entry with the same node *)
NamesOf(ls) == [q \in {<<>>} \cup {ls[i].p : i \in DOMAIN ls} |->
                 IF q = <<>> THEN 1 ELSE 1 + ls[CHOOSE i \in DOMAIN ls : ls[i].p = q].c]
NodeOf(ls) == [n \in {1} \cup {1 + ls[i].c : i \in DOMAIN ls} |->
                 IF n = 1 THEN [k |-> "d", m |-> 448, z |-> 0, t |-> <<>>]
                 ELSE [k |-> ls[n - 1].k, m |-> ls[n - 1].m, z |-> ls[n - 1].z, t |-> ls[n - 1].t]]
SeenOk(ls) ==
  /\ {ls[i].p : i \in DOMAIN ls} = DOMAIN names \ {<<>>}
  /\ \A i \in DOMAIN ls : LET x == ls[i]  y == node[names[x.p]] IN
       x.k = y.k /\ x.m = y.m /\ x.z = y.z /\ x.t = y.t /\ names[ls[x.c].p] = names[x.p]
  /\ Cardinality({ls[i].c : i \in DOMAIN ls}) = Cardinality({names[q] : q \in DOMAIN names \ {<<>>}})
B(x) == x = 1
Outcome(o) ==
  CASE o.n = "chdir" -> DoChdir(B(o.abs), o.p)
    [] o.n = "fchdir" -> DoFchdir(o.k, o.p)
    [] o.n = "getcwd" -> DoGetcwd(o.size, B(o.null), rootlen)
    [] o.n = "stat" -> DoStat(B(o.abs), o.p, TRUE)
    [] o.n = "lstat" -> DoStat(B(o.abs), o.p, FALSE)
    [] o.n = "chmod" -> DoChmod(B(o.abs), o.p, o.m)
    [] o.n = "mkdir" -> DoMk(B(o.abs), o.p, "d", o.m)
    [] o.n = "mkfifo" -> DoMk(B(o.abs), o.p, "p", o.m)
    [] o.n = "mknod" -> DoMk(B(o.abs), o.p, "f", o.m)
    [] o.n = "link" -> DoLink(B(o.abs), o.p, B(o.abs2), o.p2)
    [] o.n = "unlink" -> DoUnlink(B(o.abs), o.p)
    [] o.n = "open" -> DoOpen(B(o.abs), o.p, B(o.cr), B(o.ex), B(o.tr), B(o.wr), o.m)
OutOk(o, x) ==
  CASE o.n = "getcwd" -> Ev.p = x.out
    [] o.n \in {"stat", "lstat"} -> Ev.k = x.out.k /\ Ev.m = x.out.m /\ (Ev.z = x.out.z \/ Ev.k = "l") /\ (Ev.n = x.out.n \/ Ev.k = "d")
    [] OTHER -> TRUE
RetOk == IF pend.n = "mkstemp" THEN Ret(DoMkstemp(B(pend.abs), pend.p, Ev.name))
         ELSE LET x == Outcome(pend) IN Must(x.r = 0) /\ Must(OutOk(pend, x)) /\ Ret(x)
(* an operation that needs irrevocability is not executed before; it restarts the attempt *)
NeedsIrr(o) == o.n = "open" /\ o.tr = 1 /\ ~irr
UndoOk ==
  IF phase = "call" THEN
    IF NeedsIrr(pend) THEN Undo(-1)
    ELSE IF pend.n = "mkstemp" THEN LET x == DoMkstemp(B(pend.abs), pend.p, "??") IN Must(x.r = -1) /\ Undo(x.e)
    ELSE LET x == Outcome(pend) IN Must(x.r = -1) /\ Undo(x.e)
  ELSE Undo(0)
TraceInit == Init /\ l = 1 /\ rootlen = 0
TraceNext ==
  \/ /\ Is("reset") /\ rootlen' = Ev.rootlen
     /\ names' = NamesOf(Ev.fs) /\ node' = NodeOf(Ev.fs)
     /\ cwd' = <<>> /\ cwd0' = <<>> /\ fresh' = {} /\ fds' = 0 /\ fds0' = 0 /\ held' = 0 /\ held0' = 0
     /\ irr' = FALSE /\ pend' = None /\ expect' = 0 /\ phase' = "idle"
  \/ /\ UNCHANGED rootlen
     /\ \/ Is("begin") /\ Begin(Ev.irr = 1) /\ Must(expect = -1 => Ev.irr = 1)
        \/ Is("call") /\ Call(Ev)
        \/ Is("ret") /\ Must(~NeedsIrr(pend)) /\ RetOk
        \/ (Is("conflict") \/ Is("error") \/ Is("irrev")) /\ Stop
        \/ Is("fault") /\ Fault
        \/ Is("commit") /\ Commit
        \/ Is("apply") /\ Apply
        \/ Is("undo") /\ UndoOk
        \/ Is("finish") /\ Finish
        \/ Is("recover") /\ Must(Ev.nr = 0) /\ Recover(Ev.v)
        \/ Is("restart") /\ Restart
        \/ Is("end") /\ End
        \/ Is("drop") /\ Drop(Ev.fds, Ev.bufs)
        \/ /\ Is("look") /\ phase \in {"idle", "exec", "recovery"} /\ UNCHANGED vars
           /\ Must(Ev.cwd = cwd) /\ Must(Ev.fds = fds) /\ Must(Ev.umem = 1) /\ Must(Ev.bufs = held \/ Ev.bufs = -1) /\ Must(SeenOk(Ev.fs))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
