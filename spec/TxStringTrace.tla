---------------------------- MODULE TxStringTrace ----------------------------
EXTENDS TxString, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
M(t) == [i \in 0 .. N - 1 |-> t[i + 1]]
TraceInit == Init0([i \in 0 .. N - 1 |-> 0]) /\ l = 1
TraceNext ==
  \/ /\ Is("reset") /\ phase \in {"idle", "recovery"}
     /\ mem' = M(Ev.m) /\ view' = M(Ev.m) /\ msave' = NULL /\ save' = NULL /\ phase' = "idle"
  \/ Is("begin") /\ Begin
  \* the plain function's result is recorded, too; both have to agree with the specification
  \/ Is("call") /\ Must(Ev.p = Ev.r) /\ Must(Ev.g = 1) /\ Call(Ev.f, Ev.a, Ev.b, Ev.r, Ev.o)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ Undo
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.nr = 0 /\ Ev.v = 123) /\ Recover
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ EndTx
  \/ Is("look") /\ Must(Ev.g = 1) /\ Look(M(Ev.m))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
