---------------------------- MODULE TxErrnoTrace ----------------------------
EXTENDS TxErrno, Json, IOUtils, TLC, Sequences
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ cur' = 0 /\ saved' = 0 /\ ops' = FALSE /\ phase' = "idle"
  \/ Is("set") /\ Set(Ev.v)
  \/ Is("begin") /\ Begin
  \/ Is("raw") /\ Raw(Ev.v)
  \/ Is("call") /\ Call
  \/ Is("ret") /\ Ret(Ev.v)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ Undo
  \/ Is("finish") /\ Finish /\ UNCHANGED <<cur, saved, ops>>
  \/ Is("recover") /\ Must(Ev.nr = 0) /\ Recover(Ev.errno)
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("look") /\ Look(Ev.v)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
