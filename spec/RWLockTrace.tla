---------------------------- MODULE RWLockTrace ----------------------------
EXTENDS RWLock, Json, IOUtils, TLC
VARIABLE l
tvars == <<lvars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))

TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
St == [u |-> "u", r |-> "r", w |-> "w"]
TraceNext ==
  \/ Is("reset") /\ held' = [t \in Thread |-> [k \in Lock |-> "u"]]
                 /\ req' = [t \in Thread |-> NoReq] /\ res' = [t \in Thread |-> "none"]
  \/ Is("call") /\ Call(Ev.t, Ev.op, Ev.k, Ev.old = 1)
  \/ Is("ret") /\ Return(Ev.t, Ev.r) /\ (Ev.st = held[Ev.t][req[Ev.t].k])
  \/ Is("final") /\ (\A t \in Thread : req[t] = NoReq /\ \A k \in Lock : held[t][k] = "u") /\ UNCHANGED lvars
  \* effects are placed as late as possible: just before some operation returns
  \/ l <= Len(TraceLog) /\ Ev.e = "ret" /\ (\E t \in Thread : Lin(t)) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
