---------------------------- MODULE TreeMapTrace ----------------------------
EXTENDS TreeMap, Json, IOUtils, TLC
VARIABLES l, walk     \* walk: keys in the order of a walk, or <<"none">>
tvars == <<mvars, next, l, walk>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1 /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceInit == Init /\ next = 0 /\ l = 1 /\ walk = <<>> /\ TLCSet(1, 0)
Elem(s) == {s[i] : i \in 1..Len(s)}
VARIABLE order        \* the keys in ascending order
Present == {k \in DOMAIN map : map[k] # 0}
Step ==
  \/ Is("reset") /\ map' = [k \in {} |-> 0] /\ st' = [t \in Thread |-> Idle] /\ gone' = {} /\ UNCHANGED <<walk, order>>
  \/ Is("keys") /\ map' = [k \in Elem(Ev.ks) |-> 0] /\ order' = Ev.ks /\ UNCHANGED <<st, gone, walk>>
  \/ Is("find") /\ Find(Ev.t, Ev.k, Ev.cr = 1, Ev.mf = 1) /\ UNCHANGED <<walk, order>>
  \/ Is("create") /\ Create(Ev.t, Ev.k, Ev.v) /\ UNCHANGED <<walk, order>>
  \/ Is("destroy") /\ Discard(Ev.t, Ev.v) /\ UNCHANGED <<walk, order>>
  \/ Is("ret") /\ Return(Ev.t, Ev.r, Ev.v) /\ UNCHANGED <<walk, order>>
  \/ Is("walk") /\ walk' = <<>> /\ UNCHANGED <<mvars, order>>
  \/ Is("each") /\ Ev.k \in Present /\ map[Ev.k] = Ev.v /\ walk' = Append(walk, Ev.k) /\ UNCHANGED <<mvars, order>>
  \/ Is("walked") /\ walk = SelectSeq(order, LAMBDA k : k \in Present) /\ UNCHANGED <<mvars, walk, order>>
  \* tear-down: the values of the map go, one after another
  \/ Is("uninit") /\ (\A t \in Thread : st[t] = Idle)
       /\ st' = [st EXCEPT ![0] = [Idle EXCEPT !.at = "uninit"]] /\ UNCHANGED <<map, gone, walk, order>>
  \/ Is("destroy") /\ st[0].at = "uninit" /\ (\E k \in Present : map[k] = Ev.v /\ map' = [map EXCEPT ![k] = 0])
       /\ UNCHANGED <<st, gone, walk, order>>
  \/ Is("final") /\ Present = {} /\ UNCHANGED <<mvars, walk, order>>
  \/ l <= Len(TraceLog) /\ Ev.e \in {"ret", "destroy"} /\ (\E t \in Thread : Lin(t) \/ SeeLost(t)) /\ UNCHANGED <<l, walk, order>>
TraceNext == Step /\ UNCHANGED next
TraceSpec == TraceInit /\ order = <<>> /\ [][TraceNext]_<<tvars, order>>
Accepted == /\ PrintT("PROGRESS " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(TraceLog)))
            /\ TLCGet(1) = Len(TraceLog)
=============================================================================
