---------------------------- MODULE TxFileCTrace ----------------------------
(* Is a trace recorded from the real library a behaviour of TxFileC? *)
EXTENDS TxFileC, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
Tab(ls, key(_), val(_)) == [k \in {key(ls[i]) : i \in DOMAIN ls} |-> val(ls[CHOOSE i \in DOMAIN ls : key(ls[i]) = k])]
DataOf(e) == LET K(x) == x.f V(x) == x.d IN Tab(e.files, K, V)
ModeOf(e) == LET K(x) == x.f V(x) == x.m IN Tab(e.files, K, V)
OfdOf(e) == LET K(x) == x.o V(x) == [f |-> x.f, off |-> x.off, app |-> x.app = 1] IN Tab(e.ofds, K, V)
FdoOf(e) == LET K(x) == x.fd V(x) == x.o IN Tab(e.fds, K, V)
TraceInit == Init /\ l = 1
Reset == /\ Is("reset") /\ data' = DataOf(Ev) /\ mode' = ModeOf(Ev) /\ ofd' = OfdOf(Ev) /\ fdo' = FdoOf(Ev)
         /\ ph' = [t \in Thread |-> "out"] /\ irr' = [t \in Thread |-> FALSE] /\ log' = [t \in Thread |-> <<>>]
         /\ pend' = [t \in Thread |-> None] /\ use' = [t \in Thread |-> {}] /\ seen' = [t \in Thread |-> {}]
         /\ want' = [t \in Thread |-> "none"] /\ expect' = [t \in Thread |-> 0]
Final == /\ Is("final") /\ \A t \in Thread : ph[t] = "out"
         /\ data = DataOf(Ev) /\ mode = ModeOf(Ev) /\ ofd = OfdOf(Ev) /\ UNCHANGED vars
TraceNext ==
  \/ Reset
  \/ Final
  \/ Is("begin") /\ Begin(Ev.t, Ev.irr = 1)
  \/ Is("call") /\ Call(Ev.t, Ev)
  \/ Is("ret") /\ Ret(Ev.t, IF pend[Ev.t].n = "open" THEN [pend[Ev.t] EXCEPT !.fd = Ev.fd] ELSE pend[Ev.t], Ev.r)
  \/ Is("reqirr") /\ Request(Ev.t, "irr", 0)
  \/ Is("reqconf") /\ Request(Ev.t, "conf", 0)
  \/ Is("reqerr") /\ Request(Ev.t, "err", Ev.v)
  \/ Is("prep") /\ Prepare(Ev.t)
  \/ Is("apply") /\ Apply(Ev.t)
  \/ Is("undo") /\ Undo(Ev.t)
  \/ Is("finish") /\ Finish(Ev.t)
  \/ Is("rec") /\ Ev.nr = 0 /\ Ev.st = 4 /\ Recover(Ev.t, Ev.v)
  \/ Is("again") /\ Again(Ev.t)
  \/ Is("end") /\ End(Ev.t)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
