--------------------------- MODULE SharedObjTrace ---------------------------
EXTENDS SharedObj, Json, IOUtils, TLC
VARIABLE l
tvars == <<svars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceInit == MInit /\ l = 1 /\ TLCSet(1, 0)
Step ==
  \/ Is("reset") /\ n' = 0 /\ live' = "no" /\ st' = [t \in Thread |-> Idle]
  \/ Is("up") /\ Call(Ev.t, IF Ev.fast = 1 THEN "fast" ELSE "up")
  \/ Is("down") /\ Call(Ev.t, "down")
  \/ Is("cond") /\ Cond(Ev.t, Ev.f)
  \/ Is("first") /\ First(Ev.t)
  \/ Is("firstdone") /\ FirstDone(Ev.t, Ev.f = 0)
  \/ Is("last") /\ Last(Ev.t)
  \/ Is("lastdone") /\ LastDone(Ev.t)
  \/ Is("ret") /\ Return(Ev.t, Ev.r)
  \/ Is("count") /\ Ev.n = 0 /\ n = 0 /\ UNCHANGED ovars
  \/ Is("final") /\ live = "no" /\ (\A t \in Thread : st[t] = Idle) /\ UNCHANGED ovars
  \/ l <= Len(TraceLog) /\ Ev.e \in {"ret", "last", "first"} /\ (\E t \in Thread : TakeMore(t) \/ DropOne(t)) /\ UNCHANGED l
TraceNext == Step /\ UNCHANGED mine
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
