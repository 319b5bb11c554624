----------------------------- MODULE TxFdCTrace -----------------------------
EXTENDS TxFdC, Sequences, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
FdsOf(ls) == [x \in {ls[i].fd : i \in DOMAIN ls} |-> ls[CHOOSE i \in DOMAIN ls : ls[i].fd = x].f]
TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
Reset == /\ Is("reset") /\ obj' = FdsOf(Ev.fds) /\ ph' = [t \in Thread |-> "out"] /\ opened' = Empty /\ closed' = Empty
         /\ uses' = Empty /\ closing' = {} /\ ended' = {} /\ dead' = Empty
         /\ pend' = [t \in Thread |-> None] /\ err' = [t \in Thread |-> FALSE]
Final == /\ Is("final") /\ (\A t \in Thread : ph[t] = "out" /\ uses[t] = {} /\ dead[t] = {})
         /\ Without(obj, closing) = FdsOf(Ev.fds) /\ UNCHANGED vars
Opening == l <= Len(TraceLog) /\ Ev.e = "ret" /\ pend[Ev.t].n \in {"open", "dup"} /\ Ev.fd \in DOMAIN obj
TraceNext ==
  \/ Reset
  \/ Final
  \/ Is("begin") /\ Begin(Ev.t)
  \/ Is("call") /\ Call(Ev.t, Ev.n, Ev.fd, Ev.f)
  \/ Is("ret") /\ Ret(Ev.t, Ev.fd, Ev.f)
  \/ Is("req") /\ Request(Ev.t, Ev.err = 1)
  \/ Is("prep") /\ ph[Ev.t] = "exec" /\ UNCHANGED vars
  \/ Is("apply") /\ Apply(Ev.t)
  \/ Is("undo") /\ Undo(Ev.t)
  \/ Is("finish") /\ ph[Ev.t] \in {"apply", "undo"} /\ UNCHANGED vars
  \/ Is("rec") /\ Ev.nr = 0 /\ Ev.st = 4 /\ Recover(Ev.t, Ev.v)
  \/ Is("again") /\ Again(Ev.t)
  \/ Is("end") /\ End(Ev.t)
  \* descriptors vanish when their numbers are used again
  \/ Opening /\ (Remove(Ev.fd) \/ Unopen(Ev.fd)) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
