--------------------------- MODULE TxProtocolTrace ---------------------------
EXTENDS TxProtocol, Json, IOUtils, TLC

VARIABLE l
tvars == <<s, l>>

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
Err == [st |-> Ev.st, v |-> Ev.v, nr |-> 0]
T == Ev.t

Mod == [id |-> Ev.m, begin |-> Ev.cbs[1] = 1, prep |-> Ev.cbs[2] = 1, apply |-> Ev.cbs[3] = 1,
        undo |-> Ev.cbs[4] = 1, aev |-> Ev.cbs[5] = 1, uev |-> Ev.cbs[6] = 1, fin |-> Ev.cbs[7] = 1]

TraceNext ==
  \/ Is("reset") /\ (s' = [t \in Thread |-> Fresh({})])
  \/ Is("final") /\ (\A t \in Thread : s[t].dir = "out") /\ UNCHANGED s
  \/ Is("reg") /\ Ev.ok = 1 /\ Register(T, Mod)
  \/ Is("reg") /\ Ev.ok = 0 /\ (On("proto") => Cardinality(s[T].mods) >= 16) /\ UNCHANGED s
  \/ Is("start") /\ Start(T)
  \/ Is("body") /\ Body(T, Ev.irr = 1, Ev.st)
  \/ Is("ev") /\ Ev.ok = 1 /\ Event(T, Ev.m, Ev.x, Ev.ae = 1, Ev.ue = 1)
  \/ Is("req") /\ Request(T, Ev.k, [Err EXCEPT !.nr = Ev.nr])
  \/ Is("commit") /\ Commit(T)
  \/ /\ Is("cb")
     /\ \/ Ev.c = "begin" /\ CbBegin(T, Ev.m, Ev.f, Err)
        \/ Ev.c = "prep" /\ CbPrepare(T, Ev.m, Ev.f, Err)
        \/ Ev.c = "apply" /\ CbApply(T, Ev.m, Ev.f, Err)
        \/ Ev.c = "undo" /\ CbUndo(T, Ev.m)
        \/ Ev.c = "fin" /\ CbFinish(T, Ev.m, Ev.f, Err)
  \/ Is("aev") /\ EvApply(T, Ev.m, Ev.x, Ev.f, Err)
  \/ Is("uev") /\ EvUndo(T, Ev.m, Ev.x)
  \/ Is("rec") /\ Recovery(T, [Err EXCEPT !.nr = Ev.nr])
  \/ Is("again") /\ Again(T)
  \/ Is("end") /\ End(T)
  \/ Is("release") /\ Release(T, Ev.m)
  \/ Is("stop") /\ s' = [t \in Thread |-> Fresh({})]

TraceSpec == Init /\ l = 1 /\ [][TraceNext]_tvars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
