-------------------------------- MODULE TmSeq --------------------------------
(* One transaction after the other on byte-addressed memory, in full detail:
   loads, stores, combined load-and-store, privatization of regions and of
   strings, discarding, direct access to privatized memory, commit, roll-back;
   and a peer that tries to access the same memory in between.

   Check selects the enforced groups of guards: "seq" C11, "undo" C02,
   "priv" C12.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Addr, Check

VARIABLES mem,   \* committed memory
          open,  \* the attempt is under way
          view,  \* memory as the attempt sees it
          wrote, \* addresses with buffered or direct stores
          pl,    \* addresses that are privatized (for loading at least)
          ps,    \* addresses that are privatized for storing
          dc,    \* addresses that are discarded
          po,    \* discarded addresses that have a new owner already
          last   \* how the last attempt ended

vars == <<mem, open, view, wrote, pl, ps, dc, po, last>>

(* A condition that TLC evaluates as a whole instead of branching over it. *)
Must(p) == p = TRUE

On(g) == g \in Check
Rgn(o, n) == o..(o + n - 1)
At(m, o, n) == [k \in 1..n |-> m[o + k - 1]]
Put(m, o, b) == [a \in Addr |-> IF a \in Rgn(o, Len(b)) THEN b[a - o + 1] ELSE m[a]]

InitWith(m) == /\ mem = m /\ view = m /\ open = FALSE /\ last = "none"
               /\ wrote = {} /\ pl = {} /\ ps = {} /\ dc = {} /\ po = {}

Begin == /\ ~open
         /\ open' = TRUE
         /\ view' = mem
         /\ wrote' = {} /\ pl' = {} /\ ps' = {} /\ dc' = {}
         /\ po' = {} /\ UNCHANGED <<mem, last>>

Load(o, b) ==
  /\ open /\ Rgn(o, Len(b)) \cap dc = {}
  /\ Must((On("seq") \/ (On("priv") /\ Rgn(o, Len(b)) \cap pl # {})) => b = At(view, o, Len(b)))
  /\ UNCHANGED vars

Store(o, b) ==
  /\ open /\ Rgn(o, Len(b)) \cap dc = {}
  /\ view' = Put(view, o, b)
  /\ wrote' = wrote \cup Rgn(o, Len(b))
  /\ UNCHANGED <<mem, open, pl, ps, dc, po, last>>

(* The source must not overlap with the destination. *)
LoadStore(s, d, n) ==
  /\ open /\ (Rgn(s, n) \cup Rgn(d, n)) \cap dc = {} /\ Rgn(s, n) \cap Rgn(d, n) = {}
  /\ view' = Put(view, d, At(view, s, n))
  /\ wrote' = wrote \cup Rgn(d, n)
  /\ UNCHANGED <<mem, open, pl, ps, dc, po, last>>

(* f: "load", "store" or "discard" *)
Privatize(o, n, f) ==
  /\ open /\ Rgn(o, n) \cap dc = {}
  /\ pl' = pl \cup (IF f = "discard" THEN {} ELSE Rgn(o, n))
  /\ ps' = ps \cup (IF f = "store" THEN Rgn(o, n) ELSE {})
  /\ dc' = dc \cup (IF f = "discard" THEN Rgn(o, n) ELSE {})
  /\ UNCHANGED <<mem, open, view, wrote, po, last>>

(* The string that starts at o, up to and including its terminator c. *)
StrLen(o, c) == LET e == CHOOSE a \in Addr : a >= o /\ view[a] = c /\ \A x \in o..(a - 1) : view[x] # c
                IN e - o + 1
PrivatizeC(o, c, f) == /\ \E a \in Addr : a >= o /\ view[a] = c
                       /\ Privatize(o, StrLen(o, c), f)

DirectRead(o, b) ==
  /\ open /\ Rgn(o, Len(b)) \subseteq (pl \ dc)
  /\ Must(On("priv") => b = At(view, o, Len(b)))
  /\ UNCHANGED vars

DirectWrite(o, b) ==
  /\ open /\ Rgn(o, Len(b)) \subseteq (ps \ dc)
  /\ view' = Put(view, o, b)
  /\ wrote' = wrote \cup Rgn(o, Len(b))
  /\ UNCHANGED <<mem, open, pl, ps, dc, po, last>>

(* Discarded memory may get a new owner at once; nobody else accesses it. *)
Reuse(o, b) ==
  /\ open /\ Rgn(o, Len(b)) \subseteq dc
  /\ mem' = Put(mem, o, b)
  /\ view' = Put(view, o, b)
  /\ po' = po \cup Rgn(o, Len(b))
  /\ UNCHANGED <<open, wrote, pl, ps, dc, last>>

(* Conflict, restart, error: the attempt leaves no trace. *)
Rollback ==
  /\ open
  /\ open' = FALSE
  /\ view' = mem /\ last' = "abort"
  /\ UNCHANGED <<mem, wrote, pl, ps, dc, po>>
(* An access to discarded memory is an error. *)
OutOfBounds(o, n) == Rgn(o, n) \cap dc # {} /\ Rollback

Commit ==
  /\ open
  /\ open' = FALSE
  /\ mem' = view /\ last' = "commit"
  /\ UNCHANGED <<view, wrote, pl, ps, dc, po>>

(* What is really in memory after the attempt: exactly the committed
   content, except that discarded memory is undefined after a commit.     *)
Enforced == \/ (On("seq") /\ last = "commit")
            \/ (On("undo") /\ last = "abort")
            \/ (On("priv") /\ pl \cup dc # {})
Settle(m) ==
  /\ ~open
  /\ Must(Enforced => \A a \in Addr : m[a] = mem[a] \/ (last = "commit" /\ a \in dc \ po))
  /\ mem' = m /\ view' = m
  /\ dc' = {} /\ wrote' = {} /\ pl' = {} /\ ps' = {} /\ po' = {}
  /\ UNCHANGED <<open, last>>

(* A peer that loads or stores in a transaction of its own, during the
   attempt (then it may meet a conflict) or after it (then it succeeds).  *)
PeerLoad(o, b) ==
  /\ Must((open /\ On("priv")) => Rgn(o, Len(b)) \cap (ps \cup dc) = {})
  /\ Must((On("undo") \/ On("priv")) => b = At(mem, o, Len(b)))
  /\ UNCHANGED vars
PeerStore(o, b) ==
  /\ Must((open /\ On("priv")) => Rgn(o, Len(b)) \cap (pl \cup ps \cup dc) = {})
  /\ mem' = Put(mem, o, b)
  /\ view' = Put(view, o, b)
  /\ UNCHANGED <<open, wrote, pl, ps, dc, po, last>>
PeerConflict ==
  /\ Must((On("undo") \/ On("priv")) => open)
  /\ UNCHANGED vars
=============================================================================
