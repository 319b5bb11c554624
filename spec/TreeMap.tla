------------------------------- MODULE TreeMap -------------------------------
(* A map from keys to values that are created at the first lookup. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread, Shared     \* Shared: lookups by several threads at a time

VARIABLES map,   \* [key -> value]; 0: none
          st,    \* [Thread -> lookup under way]
          gone   \* values passed to the destroy function
mvars == <<map, st, gone>>

Idle == [k |-> "none", cr |-> FALSE, mine |-> 0, at |-> "idle", v |-> 0, mf |-> FALSE]
Init == map = [k \in {} |-> 0] /\ st = [t \in Thread |-> Idle] /\ gone = {}

Find(t, k, cr, mf) ==
  /\ st[t] = Idle /\ k \in DOMAIN map
  /\ st' = [st EXCEPT ![t] = [Idle EXCEPT !.k = k, !.cr = cr, !.at = "called", !.mf = mf]]
  /\ UNCHANGED <<map, gone>>

(* The create function makes a value for the key, or fails (v = 0). *)
Create(t, k, v) ==
  /\ st[t].at = "called" /\ st[t].cr /\ st[t].mine = 0 /\ st[t].k = k
  /\ ~Shared => map[k] = 0
  /\ st' = [st EXCEPT ![t].mine = v, ![t].at = IF v = 0 THEN "failed" ELSE "called"]
  /\ UNCHANGED <<map, gone>>

(* The lookup takes effect. *)
Install(t) ==
  /\ st[t].at = "called" /\ st[t].mine # 0 /\ map[st[t].k] = 0
  /\ map' = [map EXCEPT ![st[t].k] = st[t].mine]
  /\ st' = [st EXCEPT ![t].at = "done", ![t].v = st[t].mine, ![t].mine = 0]
  /\ UNCHANGED gone
See(t) ==
  /\ st[t].at = "called"
  /\ map[st[t].k] # 0 \/ ~st[t].cr
  /\ st' = [st EXCEPT ![t].at = "done", ![t].v = map[st[t].k]]
  /\ UNCHANGED <<map, gone>>
Lin(t) == Install(t) \/ See(t)

(* A value that lost the race for its key goes back. *)
Discard(t, v) ==
  /\ v # 0 /\ st[t].mine = v /\ v \notin gone
  /\ map[st[t].k] # 0
  /\ gone' = gone \cup {v}
  /\ st' = [st EXCEPT ![t].mine = 0, ![t].at = IF @ = "called" THEN "lost" ELSE @]
  /\ UNCHANGED map
SeeLost(t) ==
  /\ st[t].at = "lost"
  /\ st' = [st EXCEPT ![t].at = "done", ![t].v = map[st[t].k]]
  /\ UNCHANGED <<map, gone>>

Return(t, r, v) ==
  /\ st[t].mine = 0
  /\ \/ r = "ok" /\ st[t].at = "done" /\ v = st[t].v
     \/ r = "err" /\ st[t].at = "failed"
     \/ r = "err" /\ st[t].at = "called" /\ st[t].mf   \* out of memory
  /\ st' = [st EXCEPT ![t] = Idle]
  /\ UNCHANGED <<map, gone>>
-----------------------------------------------------------------------------
CONSTANTS Key, MaxVal
VARIABLE next
MInit == map = [k \in Key |-> 0] /\ st = [t \in Thread |-> Idle] /\ gone = {} /\ next = 1
MNext == \E t \in Thread :
  \/ \E k \in Key, cr \in BOOLEAN : Find(t, k, cr, FALSE) /\ UNCHANGED next
  \/ \E k \in Key : next <= MaxVal /\ \/ Create(t, k, next) /\ next' = next + 1
                                      \/ Create(t, k, 0) /\ UNCHANGED next
  \/ (Lin(t) \/ SeeLost(t)) /\ UNCHANGED next
  \/ \E v \in 1..MaxVal : (Discard(t, v) \/ Return(t, "ok", v) \/ Return(t, "err", v)) /\ UNCHANGED next
  \/ (Return(t, "ok", 0) \/ Return(t, "err", 0)) /\ UNCHANGED next
MSpec == MInit /\ [][MNext]_<<mvars, next>>
Values == {map[k] : k \in DOMAIN map} \ {0}
(* every value is in the map at one key, on its way, or gone *)
Kept == /\ \A k, j \in DOMAIN map : map[k] = map[j] /\ map[k] # 0 => k = j
        /\ Values \cap gone = {}
        /\ \A v \in 1..(next - 1) : v \in gone \/ v \in Values \/ \E t \in Thread : st[t].mine = v
Stable == [][\A k \in DOMAIN map : map[k] # 0 => map'[k] = map[k]]_<<mvars, next>>
=============================================================================
