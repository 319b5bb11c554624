---------------------------- MODULE TxLibTrace ----------------------------
(* Is a trace recorded from the real library a behaviour of TxLib? *)
EXTENDS TxLib, Json, IOUtils, TLC

VARIABLE l
tvars == <<vars, l>>

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
O == [op |-> Ev.op, x |-> Ev.x, p |-> Ev.p, r |-> Ev.r]

TraceInit == Init /\ l = 1

TraceNext ==
  \/ Is("reset") /\ content' = [c \in Cont |-> Empty(c)] /\ log' = [t \in Thread |-> NoOps] /\ phase' = [t \in Thread |-> "idle"]
  \/ Is("begin") /\ Begin(Ev.t)
  \/ Is("op") /\ Op(Ev.t, Ev.c, O)
  \/ Is("apply") /\ Apply(Ev.t)
  \/ Is("undo") /\ Undo(Ev.t)
  \/ Is("finish") /\ Finish(Ev.t)
  \/ Is("final") /\ Final(Ev.c, Ev.r)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
