--------------------------- MODULE PicotmLibTrace ---------------------------
EXTENDS PicotmLib, Json, IOUtils, TLC
VARIABLE l
tvars == <<vars, l>>
TItems == 1..7
TLists == 1..2
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
B(p) == IF p THEN 1 ELSE 0
Seen == /\ Must(Ev.q1 = q[1] /\ Ev.q2 = q[2])
        /\ Must(\A x \in Items : Ev.enq[x] = B(~Free(x)) /\ Ev.prev[x] = Prev(x))
        /\ Must(Ev.ends = <<End1(1), End2(1), End1(2), End2(2)>>)
        /\ Must(\A h \in Lists : Ev.emp[h] = B(q[h] = <<>>))
        /\ UNCHANGED vars
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ key' = [x \in Items |-> 0] /\ q' = [h \in Lists |-> <<>>] /\ tab' = <<>> /\ er' = NoError /\ ref' = <<2, 1>>
  \/ Is("keys") /\ key' = Ev.k /\ UNCHANGED <<q, tab, er, ref>>
  \/ Is("front") /\ Front(Ev.h, Ev.x)
  \/ Is("back") /\ Back(Ev.h, Ev.x)
  \/ Is("before") /\ Before(Ev.x, Ev.y)
  \/ Is("after") /\ After(Ev.x, Ev.y)
  \/ Is("sorted") /\ Sorted(Ev.h, Ev.x)
  \/ Is("dequeue") /\ Dequeue(Ev.x)
  \/ Is("dequeuefront") /\ DequeueFront(Ev.h)
  \/ Is("walk") /\ Must(Ev.bad = 0) /\ Walk(Ev.h, Ev.seen, Ev.inc, Ev.r)
  \/ Is("find") /\ Must(Ev.bad = 0) /\ Find(Ev.h, Ev.key, Ev.seen, Ev.r)
  \/ Is("cleanup") /\ Must(Ev.bad = 0) /\ Cleanup(Ev.h, Ev.seen)
  \/ Is("lists") /\ Seen
  \/ Is("resize") /\ Resize(Ev.n, Ev.siz, Ev.ok, Ev.err, Ev.failed, Ev.null, Ev.bytes, Ev.keep)
  \/ Is("fill") /\ Fill(Ev.v)
  \/ Is("twalk") /\ Must(Ev.bad = 0) /\ TWalk(Ev.k >= 3, Ev.seen, Ev.inc, Ev.errat, Ev.err, Ev.r)
  \/ Is("uniq") /\ DoUniq(Ev.r, Ev.v)
  \/ Is("eset") /\ ESet(Ev.st, Ev.v)
  \/ Is("emark") /\ EMark
  \/ Is("edesc") /\ EDesc(Ev.d)
  \/ Is("eclear") /\ EClear
  \/ Is("elook") /\ ELook(Ev.st, Ev.v, Ev.nr, Ev.d, Ev.set, Ev.conf, Ev.rev, Ev.iserr)
  \/ Is("rinit") /\ SetRef(Ev.k, Ev.n)
  \/ Is("rup") /\ RUp(Ev.k, Ev.r)
  \/ Is("rdown") /\ RDown(Ev.k, Ev.r)
  \/ Is("rcount") /\ RCount(Ev.k, Ev.n)
  \/ Is("addr") /\ Addr(Ev.a, Ev.al, Ev.floor, Ev.ceil, Ev.pfloor, Ev.pceil, Ev.b, Ev.diff)
  \/ Is("end") /\ EndAll
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
