-------------------------- MODULE PicotmSyncTrace --------------------------
EXTENDS PicotmSync, Sequences, Json, IOUtils, TLC
VARIABLE l
tvars == <<yvars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
TraceNext ==
  \/ Is("reset") /\ holder' = Nobody /\ cnt' = 0 /\ req' = [t \in Thread |-> "none"] /\ res' = [t \in Thread |-> None]
  \/ Is("start") /\ cnt' = Ev.c /\ UNCHANGED <<holder, req, res>>
  \/ Is("call") /\ Call(Ev.t, Ev.op)
  \/ Is("ret") /\ Return(Ev.t, Ev.r)
  \/ Is("final") /\ holder = Nobody /\ (\A t \in Thread : req[t] = "none") /\ UNCHANGED yvars
  \/ l <= Len(TraceLog) /\ Ev.e = "ret" /\ (\E t \in Thread : Lin(t)) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
