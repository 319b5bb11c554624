---------------------------- MODULE PtrDataTrace ----------------------------
EXTENDS PtrData, Json, IOUtils, TLC
VARIABLE l
tvars == <<pvars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
TraceNext ==
  \/ Is("reset") /\ shared' = [a \in Adr |-> 0] /\ local' = [t \in Thread |-> [a \in Adr |-> 0]] /\ st' = [t \in Thread |-> Idle]
  \/ Is("call") /\ Call(Ev.t, Ev.op, Ev.a, Ev.v, Ev.c)
  \/ Is("ret") /\ Return(Ev.t, Ev.r)
  \/ Is("final") /\ (\A t \in Thread : st[t] = Idle) /\ UNCHANGED pvars
  \/ l <= Len(TraceLog) /\ Ev.e = "ret" /\ (\E t \in Thread : Lin(t)) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
