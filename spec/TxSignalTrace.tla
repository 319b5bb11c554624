---------------------------- MODULE TxSignalTrace ----------------------------
(* Thread 1 reports the phases of the protocol; thread 2 only begin, commit,  *)
(* recover, restart and end.                                                  *)
EXTENDS TxSignal, Json, IOUtils, TLC
VARIABLES l, inf   \* inf: details of the signal that the recovery phase has to see
tvars == <<vars, l, inf>>
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
T == IF "t" \in DOMAIN Ev THEN Ev.t ELSE 1
TraceInit == Init /\ l = 1 /\ inf = None
Info == inf = None \/ Ev.e \in {"info", "reset"}
Nontrans ==
  \/ Is("reset") /\ acq' = {} /\ fn' = [g \in Sig |-> 0] /\ app' = [g \in Sig |-> 0] /\ en' = [t \in Thread |-> [g \in Sig |-> 0]]
                 /\ mask' = [t \in Thread |-> 0] /\ mem' = [c \in Cell |-> 0] /\ view' = [t \in Thread |-> mem']
                 /\ phase' = [t \in Thread |-> "idle"] /\ stk' = [t \in Thread |-> <<>>] /\ hit' = [t \in Thread |-> None]
                 /\ saved' = [t \in Thread |-> 0]
  \/ Is("acquire") /\ Must(Ev.st = (IF Ev.sig \in Sig THEN 0 ELSE 4) /\ Ev.v = (IF Ev.sig \in Sig THEN 0 ELSE EINVAL)) /\ Acquire(Ev.sig, Ev.h, Ev.st = 0)
  \/ Is("giveback") /\ Must(Ev.st = 0) /\ GiveBack(Ev.sig)
  \/ Is("appset") /\ AppSet(Ev.sig, Ev.h)
  \/ Is("act") /\ Must(IF Ev.sig \in acq THEN Ev.h = -1
                        ELSE Ev.h = app[Ev.sig] /\ Ev.rs = (IF Ev.h = 12 THEN 1 ELSE 0) /\ Ev.wm = (IF Ev.h = 11 THEN 1 ELSE 0)) /\ UNCHANGED vars
  \/ Is("add") /\ Must((Ev.st = 0 \/ (Ev.st = 4 /\ Ev.v = EINVAL)) = TRUE) /\ Add(T, Ev.sig, Ev.r, Ev.st = 0)
  \/ Is("remove") /\ Remove(T, Ev.sig)
  \/ Is("clear") /\ Clear(T)
  \/ Is("release") /\ Release(T)
  \/ Is("mask") /\ Mask(T, Ev.m)
  \/ Is("raise") /\ Raise(T, Ev.sig, Ev.code, Ev.det)
  \/ Is("handler") /\ Must(Ev.sig = Ev.no) /\ Handle(T, Ev.h, Ev.sig, Ev.code, Ev.det)
  \/ Is("hret") /\ Return(T)
  \/ Is("raised") /\ Raised(T, Ev.m)
  \/ Is("begin") /\ Begin(T)
  \/ Is("store") /\ Store(T, Ev.c, Ev.v)
  \/ Is("load") /\ Load(T, Ev.c, Ev.v)
  \/ (Is("conflict") \/ Is("error") \/ Is("irrev") \/ Is("fault")) /\ Fail(T)
  \/ Is("commit") /\ Commit(T)
  \/ Is("apply") /\ Apply(T)
  \/ Is("undo") /\ Undo(T)
  \/ Is("finish") /\ Finish(T)
  \/ Is("restart") /\ Restart(T)
  \/ Is("end") /\ IF T = 2 /\ phase[2] = "commit" THEN /\ mem' = Committed(2) /\ Ph(2, "idle")
                                                       /\ UNCHANGED <<acq, fn, app, en, mask, view, stk, hit, saved>>
                  ELSE IF phase[T] = "gone" THEN UNCHANGED vars ELSE End(T)
  \/ Is("look") /\ Look(T, Ev.c, Ev.m)
  \/ Is("stop") /\ phase[T] = "gone" /\ UNCHANGED vars
SIGINFO == 6
TraceNext ==
  \/ Nontrans /\ inf = None /\ UNCHANGED inf
  \/ /\ Is("recover") /\ inf = None
     /\ LET und == IF T = 2 /\ phase[2] = "undo" THEN "undone" ELSE phase[T] IN
        IF T = 1 THEN /\ Recover(1, Ev.st = SIGINFO, Ev.sig, Ev.nr = 1)
                      /\ Must((hit[1] = None) => (Ev.st = 4 /\ Ev.v = 123))
                      /\ inf' = hit[1]
        ELSE /\ phase[2] \in {"undo", "dead"}
             /\ Must((Ev.nr = 1) = (phase[2] = "dead") /\ Ev.st = SIGINFO /\ Ev.sig = hit[2].sig /\ Ev.code = hit[2].code /\ Ev.det = hit[2].det)
             /\ stk' = [stk EXCEPT ![2] = <<>>] /\ Ph(2, IF Ev.nr = 1 THEN "gone" ELSE "recovery") /\ hit' = [hit EXCEPT ![2] = None]
             /\ UNCHANGED <<acq, fn, app, en, mask, mem, view, saved, inf>>
  \/ /\ Is("info") /\ Must(Ev.code = inf.code /\ Ev.det = inf.det) /\ inf' = None /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Sigs == {4, 5, 7, 8, 11, 10, 12, 31, 36}
Homes == <<1, 1, 1, 2>>
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
