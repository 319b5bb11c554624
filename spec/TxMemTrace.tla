---------------------------- MODULE TxMemTrace ----------------------------
(* Is a trace recorded from the real library a behaviour of TxMem? *)
EXTENDS TxMem, Json, IOUtils, TLC

VARIABLE l
tvars == <<vars, l>>

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1

TraceInit == Init /\ mem = Empty /\ l = 1

Reset == /\ Is("reset")
         /\ mem' = [a \in Addr |-> Ev.mem[a + 1]]
         /\ ph' = [t \in Thread |-> "out"]
         /\ irr' = [t \in Thread |-> FALSE]
         /\ wantirr' = [t \in Thread |-> FALSE]
         /\ rd' = [t \in Thread |-> Empty]
         /\ wr' = [t \in Thread |-> Empty]
         /\ cause' = [t \in Thread |-> "none"]
         /\ tries' = [t \in Thread |-> 0]

Final == /\ Is("final")
         /\ \A t \in Thread : ph[t] = "out"
         /\ On("iso") => \A a \in Addr : mem[a] = Ev.mem[a + 1]
         /\ UNCHANGED vars

TraceNext ==
  \/ Reset
  \/ Final
  \/ Is("begin") /\ Begin(Ev.t, Ev.irr = 1, Ev.r)
  \/ Is("ld") /\ Load(Ev.t, Ev.o, Ev.b)
  \/ Is("st") /\ Store(Ev.t, Ev.o, Ev.b)
  \/ Is("reqirr") /\ Request(Ev.t, "irr")
  \/ Is("reqconf") /\ Request(Ev.t, "conf")
  \/ Is("reqerr") /\ Request(Ev.t, "err")
  \/ Is("prep") /\ Prepare(Ev.t)
  \/ Is("apply") /\ Apply(Ev.t)
  \/ Is("undo") /\ Undo(Ev.t)
  \/ Is("finish") /\ Finish(Ev.t)
  \/ Is("rec") /\ ph[Ev.t] = "rec" /\ UNCHANGED vars
  \/ Is("again") /\ Again(Ev.t)
  \/ Is("end") /\ End(Ev.t)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
