---------------------------- MODULE TxExitTrace ----------------------------
EXTENDS TxExit, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ Must((phase \in {"idle", "gone"}) = TRUE) /\ phase' = "idle" /\ mem' = [c \in Cell |-> 0] /\ view' = mem' /\ file' = [f \in File |-> <<>>] /\ app' = file'
                 /\ how' = Not /\ hooks' = <<>> /\ cur' = 0
  \/ Is("atexit") /\ AtExit(Ev.k)
  \/ Is("begin") /\ Begin
  \/ Is("load") /\ Load(Ev.c, Ev.v)
  \/ Is("store") /\ Store(Ev.c, Ev.v)
  \/ Is("write") /\ Must(Ev.r = Len(Ev.b)) /\ Write(Ev.f, Ev.b)
  \/ Is("leave") /\ Leave(Ev.how, Ev.st)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ Undo
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.st = 4 /\ Ev.v = 123 /\ Ev.nr = 0) /\ Recover
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("bye") /\ Bye(Ev.st)
  \/ Is("hook") /\ Hook(Ev.k, Ev.mem)
  \/ Is("hookend") /\ HookEnd
  \/ Is("gone") /\ Gone(Ev.how, Ev.st)
  \/ Is("mem") /\ LookMem(Ev.mem)
  \/ Is("file") /\ LookFile(Ev.f, Ev.b)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
