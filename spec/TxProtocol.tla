----------------------------- MODULE TxProtocol -----------------------------
(* How picotm drives the modules that take part in a transaction.

   A thread's transaction runs in attempts. An attempt begins the modules,
   executes the body, and ends in a commit (prepare all, then apply all and
   deliver the logged events, then finish all), in a rollback (undo all,
   deliver the logged events in reverse, then finish all), or, if a module
   could not begin, by finishing the modules that had begun.
   The order among the modules within a stage is left open.

   Groups of guards: "proto" C06, "events" C07, "errors" C08.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread, Check

VARIABLES s     \* [Thread -> state of the thread]

On(g) == g \in Check

NoErr == [st |-> 0, v |-> 0, nr |-> 0]

(* dir: "out"      no transaction
        "begin"    modules are being begun
        "run"      the body executes
        "commit"   modules prepare, apply, finish
        "rollback" modules undo, finish
        "bfail"    a module could not begin; the others finish
        "fatal"    an error after the point of no return
   out: why the attempt does not commit: "conf", "irr", "err", or "no"      *)
Fresh(mods) ==
  [dir |-> "out", mods |-> mods, why |-> "no", err |-> NoErr,
   B |-> {}, P |-> {}, A |-> {}, U |-> {}, F |-> {},
   log |-> <<>>, pos |-> 0, irr |-> FALSE]

Init == s = [t \in Thread |-> Fresh({})]

(* modules are records [id, begin, prep, apply, undo, aev, uev, fin] *)
Ids(t) == {m.id : m \in s[t].mods}
With(t, c) == {m.id : m \in {x \in s[t].mods : x[c]}}
Ext(a, b) == [x \in DOMAIN b |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Set(t, r) == s' = [s EXCEPT ![t] = Ext(r, s[t])]

NextAe(t) == LET c == {i \in (s[t].pos + 1)..Len(s[t].log) : s[t].log[i].ae}
             IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
NextUe(t) == LET hi == IF s[t].dir = "rollback" THEN s[t].pos - 1 ELSE Len(s[t].log)
                 c == {i \in 1..hi : s[t].log[i].ue}
             IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i >= j

AllPrepared(t) == With(t, "prep") \subseteq s[t].P
Applied(t) == /\ On("proto") => AllPrepared(t) /\ With(t, "apply") \subseteq s[t].A
              /\ On("events") => NextAe(t) = 0
Undone(t) == /\ On("proto") => With(t, "undo") \subseteq s[t].U
             /\ On("events") => NextUe(t) = 0
Finished(t) == On("proto") => With(t, "fin") \subseteq s[t].F

(* A rollback that is complete although no callback was there to show it. *)
RolledBack(t) ==
  \/ s[t].dir = "rollback" /\ Undone(t) /\ Finished(t)
  \/ s[t].dir \in {"run", "commit"} /\ s[t].why # "no" /\ s[t].err.nr = 0
     /\ (On("proto") => With(t, "undo") = {} /\ With(t, "fin") = {})
     /\ (On("events") => \A i \in 1..Len(s[t].log) : ~s[t].log[i].ue)

Register(t, m) == Set(t, [mods |-> s[t].mods \cup {m},
                          B |-> IF s[t].dir = "run" THEN s[t].B \cup {m.id} ELSE s[t].B])

Start(t) == s[t].dir = "out" /\ Set(t, [Fresh(s[t].mods) EXCEPT !.dir = "begin"])

(* After a rolled-back attempt the next one follows by itself. *)
Retrying(t) == s[t].why \in {"conf", "irr"} /\ RolledBack(t)
AtBegin(t) == s[t].dir = "begin" \/ Retrying(t)
Base(t) == IF s[t].dir = "begin" THEN s[t]
           ELSE [Fresh(s[t].mods) EXCEPT !.dir = "begin", !.irr = (s[t].why = "irr")]

CbBegin(t, m, f, err) ==
  /\ AtBegin(t)
  /\ LET b == Base(t) IN
     /\ On("proto") => m \in Ids(t) /\ m \notin b.B
     /\ s' = [s EXCEPT ![t] =
          IF f = "no" THEN [b EXCEPT !.B = @ \cup {m}]
          ELSE [b EXCEPT !.dir = "bfail", !.why = "err", !.err = err]]

Body(t, irr, st) ==
  /\ AtBegin(t)
  /\ LET b == Base(t) IN
     /\ On("proto") => With(t, "begin") \subseteq b.B
     /\ On("errors") => st = 0 /\ (b.irr => irr)
     /\ s' = [s EXCEPT ![t] = [b EXCEPT !.dir = "run", !.B = Ids(t)]]

Event(t, m, x, ae, ue) ==
  /\ s[t].dir = "run" /\ s[t].why = "no"
  /\ Set(t, [log |-> Append(s[t].log, [m |-> m, x |-> x, ae |-> ae, ue |-> ue])])

(* The body reports a conflict, asks for irrevocability, or reports an error. *)
Request(t, k, err) ==
  /\ s[t].dir = "run" /\ s[t].why = "no"
  /\ Set(t, [why |-> k, err |-> err])

Commit(t) ==
  /\ s[t].dir = "run" /\ s[t].why = "no"
  /\ Set(t, [dir |-> "commit"])

CbPrepare(t, m, f, err) ==
  /\ s[t].dir = "commit"
  /\ On("proto") => /\ m \in Ids(t) \ s[t].P
                    /\ s[t].why = "no" /\ s[t].A = {} /\ s[t].F = {} /\ s[t].pos = 0
  /\ Set(t, [P |-> s[t].P \cup {m}, why |-> IF f = "no" THEN s[t].why ELSE f,
             err |-> IF f = "no" THEN s[t].err ELSE err])

Fatal(t, err) == Set(t, [dir |-> "fatal", why |-> "err", err |-> [err EXCEPT !.nr = 1]])

CbApply(t, m, f, err) ==
  /\ s[t].dir = "commit"
  /\ On("proto") => /\ m \in Ids(t) \ s[t].A
                    /\ AllPrepared(t) /\ s[t].why = "no" /\ s[t].F = {}
  /\ IF f = "no" THEN Set(t, [A |-> s[t].A \cup {m}]) ELSE Fatal(t, err)

EvApply(t, m, x, f, err) ==
  /\ s[t].dir = "commit"
  /\ On("proto") => AllPrepared(t) /\ s[t].why = "no" /\ s[t].F = {}
  /\ On("events") => LET i == NextAe(t) IN
                     /\ i # 0 /\ s[t].log[i].m = m /\ s[t].log[i].x = x
                     /\ s[t].why = "no"
  /\ IF f = "no" THEN Set(t, [pos |-> IF On("events") THEN NextAe(t) ELSE s[t].pos])
     ELSE Fatal(t, err)

(* The rollback starts with the first undo. *)
Reverting(t) == \/ s[t].dir = "rollback"
                \/ s[t].dir \in {"run", "commit"} /\ s[t].why # "no" /\ s[t].err.nr = 0
NoFin(t) == On("proto") => s[t].F = {}

CbUndo(t, m) ==
  /\ Reverting(t) /\ NoFin(t)
  /\ On("proto") => m \in Ids(t) \ s[t].U /\ s[t].A = {}
  /\ Set(t, [dir |-> "rollback", U |-> s[t].U \cup {m},
             pos |-> IF s[t].dir = "rollback" THEN s[t].pos ELSE Len(s[t].log) + 1])

EvUndo(t, m, x) ==
  /\ Reverting(t) /\ NoFin(t)
  /\ On("events") => LET i == NextUe(t) IN i # 0 /\ s[t].log[i].m = m /\ s[t].log[i].x = x
  /\ Set(t, [dir |-> "rollback", pos |-> IF On("events") THEN NextUe(t) ELSE s[t].pos])

CbFinish(t, m, f, err) ==
  /\ On("proto") => m \in Ids(t) \ s[t].F
  /\ \/ s[t].dir = "commit" /\ s[t].why = "no" /\ Applied(t)
        /\ IF f = "no" THEN Set(t, [F |-> s[t].F \cup {m}]) ELSE Fatal(t, err)
     \/ Reverting(t) /\ (IF s[t].dir = "rollback" THEN Undone(t) ELSE
                           (On("proto") => With(t, "undo") = {}) /\
                           (On("events") => \A i \in 1..Len(s[t].log) : ~s[t].log[i].ue))
        /\ Set(t, [dir |-> "rollback", F |-> s[t].F \cup {m},
                   pos |-> IF s[t].dir = "rollback" THEN s[t].pos ELSE 0])
     \/ s[t].dir = "bfail"
        /\ (On("proto") => m \in s[t].B \/ m \notin With(t, "begin"))
        /\ Set(t, [F |-> s[t].F \cup {m}])

(* Control reaches the recovery phase. *)
Recovery(t, err) ==
  /\ s[t].why = "err"
  /\ \/ RolledBack(t)
     \/ s[t].dir = "fatal"
     \/ s[t].err.nr = 1 /\ s[t].dir = "run"
     \/ s[t].dir = "bfail" /\ (On("proto") => s[t].B \cap With(t, "fin") \subseteq s[t].F)
  /\ On("errors") => err = s[t].err
  /\ Set(t, [Fresh(s[t].mods) EXCEPT !.dir = "rec"])

Again(t) == s[t].dir = "rec" /\ Set(t, [Fresh(s[t].mods) EXCEPT !.dir = "begin"])

End(t) ==
  /\ \/ s[t].dir = "rec"
     \/ s[t].dir = "commit" /\ s[t].why = "no" /\ Applied(t) /\ Finished(t)
  /\ Set(t, Fresh(s[t].mods))

Release(t, m) ==
  /\ s[t].dir = "out"
  /\ On("proto") => m \in Ids(t)
  /\ Set(t, [mods |-> {x \in s[t].mods : x.id # m}])
=============================================================================
