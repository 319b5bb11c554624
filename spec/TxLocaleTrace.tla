---------------------------- MODULE TxLocaleTrace ----------------------------
EXTENDS TxLocale, Json, IOUtils, TLC, Sequences
VARIABLE l
tvars == <<vars, l>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
TNames == {"C", "C.utf8", "en_US.utf8"}
TCats == 1..6
(* [id, names] of the live objects *)
SeenOk(ls) == /\ {ls[i].id : i \in DOMAIN ls} = DOMAIN objs
              /\ \A i \in DOMAIN ls : \A c \in Cats : ls[i].v[c] = objs[ls[i].id][c]
Outcome(o) ==
  CASE o.n = "set" -> DoSet(Set(o.m), o.v)
    [] o.n = "get" -> Res(glob, thr, objs, gone)
    [] o.n = "conv" -> Res(glob, thr, objs, gone)
    [] o.n = "new" -> DoNew(Set(o.m), o.v, o.o, Ev.id)
    [] o.n = "dup" -> DoDup(o.o, Ev.id)
    [] o.n = "free" -> DoFree(o.o)
    [] o.n = "use" -> IF o.o = -1 THEN Res(glob, thr, objs, gone) ELSE DoUse(o.o)
OutOk(o) ==
  CASE o.n = "set" -> \A c \in Set(o.m) : Ev.v[c] = o.v
    [] o.n = "get" -> \A c \in Set(o.m) : Ev.v[c] = glob[c]
    [] o.n = "conv" -> LET x == IF thr = 0 THEN glob ELSE objs[thr] IN Ev.v = IF x[4] = "en_US.utf8" THEN 1 ELSE 0
    [] o.n = "use" -> Ev.id = thr
    [] o.n \in {"new", "dup"} -> Ev.id \notin DOMAIN objs
    [] OTHER -> TRUE
FailsWith(o) == CASE o.n = "set" -> IF o.v \in Names THEN 0 ELSE -1
                  [] o.n = "new" -> IF o.v \in Names THEN 0 ELSE ENOENT
                  [] OTHER -> 0
UndoOk == IF phase = "call" THEN Must(FailsWith(pend) # 0) /\ Undo(FailsWith(pend)) ELSE Undo(0)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ Is("reset") /\ glob' = [c \in Cats |-> "C"] /\ thr' = 0 /\ objs' = [x \in {} |-> 0] /\ gone' = {}
     /\ saved' = [glob |-> glob', thr |-> 0, objs |-> objs'] /\ pend' = None /\ expect' = 0 /\ phase' = "idle"
  \/ Is("begin") /\ Begin
  \/ Is("call") /\ Call(Ev)
  \/ Is("ret") /\ Must(FailsWith(pend) = 0) /\ Must(OutOk(pend)) /\ Ret(Outcome(pend))
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev")) /\ Stop
  \/ Is("fault") /\ Fault
  \/ Is("commit") /\ Commit
  \/ Is("apply") /\ Apply
  \/ Is("undo") /\ UndoOk
  \/ Is("finish") /\ Finish
  \/ Is("recover") /\ Must(Ev.nr = 0) /\ Must(expect > 0 => Ev.st = 4 /\ Ev.v = expect) /\ Must(expect = -1 => Ev.st = 3) /\ Recover
  \/ Is("restart") /\ Restart
  \/ Is("end") /\ End
  \/ /\ Is("look") /\ UNCHANGED vars /\ Must(\A c \in Cats : Ev.glob[c] = glob[c]) /\ Must(Ev.thr = thr) /\ Must(SeenOk(Ev.objs))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
