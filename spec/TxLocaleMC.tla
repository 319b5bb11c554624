----------------------------- MODULE TxLocaleMC -----------------------------
EXTENDS TxLocale
CONSTANTS MaxOps, MaxObjs
VARIABLE n
MInit == Init /\ n = 0
NewId == 1 + Cardinality({o \in 1..20 : o \in DOMAIN objs \cup gone})
Outcomes ==
  {DoSet(m, name) : m \in {{c} : c \in Cats} \cup {Cats}, name \in Names \cup {"?"}}
  \cup {DoNew(m, name, b, NewId) : m \in SUBSET Cats, name \in Names \cup {"?"}, b \in {0} \cup {o \in DOMAIN objs : Usable(o) /\ o # thr}}
  \cup {DoDup(o, NewId) : o \in {0} \cup {o \in DOMAIN objs : Usable(o)}}
  \cup {DoFree(o) : o \in {o \in DOMAIN objs : Usable(o) /\ o # thr}}
  \cup {DoUse(o) : o \in {0} \cup {o \in DOMAIN objs : Usable(o)}}
Op == /\ phase = "exec" /\ n < MaxOps /\ n' = n + 1
      /\ \E x \in Outcomes :
           /\ Cardinality(DOMAIN x.objs) <= MaxObjs
           /\ IF x.ok THEN glob' = x.glob /\ thr' = x.thr /\ objs' = x.objs /\ gone' = x.gone /\ UNCHANGED <<saved, pend, expect, phase>>
              ELSE expect' = x.e /\ phase' = "fail" /\ UNCHANGED <<glob, thr, objs, gone, saved, pend>>
MNext == \/ Op
         \/ (Begin \/ Stop \/ Fault \/ Undo(0) \/ Commit \/ Apply \/ Finish \/ Recover \/ Restart \/ End) /\ UNCHANGED n
MSpec == MInit /\ [][MNext]_<<vars, n>>
Restored == (phase \in {"undone", "recovery", "restart"}) => saved = [glob |-> glob, thr |-> thr, objs |-> objs]
(* the thread's locale is alive, freed objects live until the commit *)
Alive == thr = 0 \/ thr \in DOMAIN objs
Late == [][\A o \in DOMAIN objs : (o \notin DOMAIN objs' /\ phase' # "undo") => phase = "commit" /\ o \in gone]_vars
=============================================================================
