----------------------------- MODULE TxFpuTrace -----------------------------
EXTENDS TxFpu, Json, IOUtils, TLC, Sequences
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
S(t) == {t[i] : i \in 1 .. Len(t)}
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ phase \in {"idle", "recovery"} /\ fl' = {} /\ rnd' = 0 /\ out' = 0 /\ saved' = <<{}, 0, 0>> /\ cur' = None /\ phase' = "idle"
  \/ Is("set") /\ Set(S(Ev.fl), Ev.rnd, Ev.out)
  \/ Is("begin") /\ Begin
  \/ Is("env") /\ Env(S(Ev.fl), Ev.rnd)
  \/ Is("flag") /\ Flag(S(Ev.fl))
  \/ Is("call") /\ Call([r |-> Ev.r, raised |-> S(Ev.raised), errno |-> Ev.errno, rep |-> Ev.rep = 1, o |-> Ev.o = 1])
  \/ Is("ret") /\ Ret(Ev.r, S(Ev.fl), Ev.rnd, Ev.out)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ Undo
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.nr = 0) /\ Recover(Ev.st, Ev.v)
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("look") /\ Look(S(Ev.fl), Ev.rnd, Ev.out)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
