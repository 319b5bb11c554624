----------------------------- MODULE TmSeqTrace -----------------------------
(* Is a trace recorded from the real library a behaviour of TmSeq? *)
EXTENDS TmSeq, Json, IOUtils, TLC

VARIABLE l
tvars == <<vars, l>>

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ Ev.e = e /\ l' = l + 1
M == [a \in Addr |-> Ev.mem[a + 1]]

TraceInit == InitWith([a \in Addr |-> 0]) /\ l = 1

TraceNext ==
  \/ Is("reset") /\ mem' = M /\ view' = M /\ open' = FALSE /\ last' = "none"
                 /\ wrote' = {} /\ pl' = {} /\ ps' = {} /\ dc' = {} /\ po' = {}
  \/ Is("begin") /\ Begin
  \/ Is("ld") /\ Load(Ev.o, Ev.b)
  \/ Is("st") /\ Store(Ev.o, Ev.b)
  \/ Is("ldst") /\ LoadStore(Ev.o, Ev.d, Ev.n)
  \/ Is("priv") /\ Privatize(Ev.o, Ev.n, Ev.f)
  \/ Is("privc") /\ PrivatizeC(Ev.o, Ev.c, Ev.f)
  \/ Is("rd") /\ DirectRead(Ev.o, Ev.b)
  \/ Is("wr") /\ DirectWrite(Ev.o, Ev.b)
  \/ Is("reuse") /\ Reuse(Ev.o, Ev.b)
  \/ Is("oob") /\ OutOfBounds(Ev.o, Ev.n)
  \/ Is("abort") /\ Rollback
  \/ Is("commit") /\ Commit
  \/ Is("mem") /\ Settle(M)
  \/ Is("pld") /\ PeerLoad(Ev.o, Ev.b)
  \/ Is("pst") /\ PeerStore(Ev.o, Ev.b)
  \/ Is("pconf") /\ PeerConflict

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(TraceLog)))
     /\ d - 1 = Len(TraceLog)
=============================================================================
