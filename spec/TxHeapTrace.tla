---------------------------- MODULE TxHeapTrace ----------------------------
(* Is a trace recorded from the real library a behaviour of TxHeap? *)
EXTENDS TxHeap, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ base' = NoBlocks /\ mem' = NoBlocks /\ new' = {} /\ freed' = {} /\ rel' = {} /\ phase' = "idle" /\ nomem' = FALSE
  \/ Is("ext") /\ Ext(Ev.id, Ev.b)
  \/ Is("begin") /\ Begin
  \/ Is("call") /\ Call
  \/ Is("nomem") /\ NoMem
  \/ Is("alloc") /\ Must(Ev.fits = 1 /\ Ev.algn = 1) /\ Alloc(Ev.op, Ev.from, Ev.id, Ev.n, Ev.b)
  \/ Is("free") /\ Free(Ev.id)
  \/ Is("store") /\ Store(Ev.id, Ev.o, Ev.b)
  \/ Is("load") /\ Load(Ev.id, Ev.o, Ev.b)
  \/ Is("sysfree") /\ SysFree(Ev.id)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ Undo
  \/ Is("finish") /\ (FinishApply \/ FinishUndo)
  \/ Is("recover") /\ LET oom == Ev.v = 12 \/ (Ev.st = 3 /\ Ev.v = 1) IN Must(Ev.nr = 0 /\ (oom \/ Ev.v = 123)) /\ Recover(oom)
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ Is("look") /\ Look(Ev.id, Ev.b)
  \/ Is("sync") /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
