------------------------------- MODULE TxHeap -------------------------------
(* The transactional heap of the libc module. Blocks are named by numbers;    *)
(* a block's contents are a sequence of bytes. mem is what the transaction    *)
(* sees, base what the rest of the program sees, i.e., what a rollback has to *)
(* restore. Releases of the system allocator (SysFree) may only happen while  *)
(* the transaction ends: for blocks freed by it when it commits, for blocks   *)
(* allocated by it when it rolls back; each exactly once.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES base,    \* block -> contents, before the attempt
          mem,     \* block -> contents, in the attempt
          new,     \* blocks allocated in the attempt
          freed,   \* blocks freed in the attempt
          rel,     \* blocks given back to the system during the attempt's end
          phase,   \* idle, exec, call (in an operation), commit, apply, undo, done, recovery
          nomem    \* the system has refused memory in the current operation
vars == <<base, mem, new, freed, rel, phase, nomem>>

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Must(p) == p = TRUE
Patch(s, o, b) == [i \in 1..Len(s) |-> IF i > o /\ i <= o + Len(b) THEN b[i - o] ELSE s[i]]
Zeros(n) == [i \in 1..n |-> 0]
NoBlocks == [x \in {} |-> <<>>]

Init == base = NoBlocks /\ mem = NoBlocks /\ new = {} /\ freed = {} /\ rel = {} /\ phase = "idle" /\ nomem = FALSE

\* outside of transactions
Ext(id, b) == phase = "idle" /\ base' = Set(base, id, b) /\ mem' = base' /\ UNCHANGED <<new, freed, rel, phase, nomem>>

Begin == /\ phase \in {"idle", "undone", "restart"}
         /\ mem' = base /\ new' = {} /\ freed' = {} /\ rel' = {} /\ phase' = "exec" /\ nomem' = FALSE
         /\ UNCHANGED base
Call == phase = "exec" /\ phase' = "call" /\ nomem' = FALSE /\ UNCHANGED <<base, mem, new, freed, rel>>
NoMem == phase = "call" /\ nomem' = TRUE /\ UNCHANGED <<base, mem, new, freed, rel, phase>>

\* an allocation of n bytes; op: malloc, calloc, memalign, realloc, strdup; from: source block or -1
Contents(op, from, n, b) ==
  CASE op = "calloc" -> b = Zeros(n)
    [] op = "realloc" -> from < 0 \/ LET m == Min(n, Len(mem[from])) IN SubSeq(b, 1, m) = SubSeq(mem[from], 1, m)
    [] op = "strdup" -> SubSeq(b, 1, n - 1) = SubSeq(mem[from], 1, n - 1) /\ b[n] = 0
    [] OTHER -> TRUE
Alloc(op, from, id, n, b) ==
  /\ phase = "call" /\ phase' = "exec"
  /\ Len(b) = (IF id < 0 THEN 0 ELSE n)
  /\ IF id < 0 THEN Must(op = "realloc" /\ n = 0) ELSE Must(id \notin DOMAIN mem /\ Contents(op, from, n, b))
  /\ LET gone == IF op = "realloc" /\ from >= 0 THEN {from} ELSE {}
     IN /\ gone \subseteq DOMAIN mem
        /\ mem' = IF id < 0 THEN Without(mem, gone) ELSE Set(Without(mem, gone), id, b)
        /\ freed' = freed \cup gone
  /\ new' = new \cup (IF id < 0 THEN {} ELSE {id})
  /\ UNCHANGED <<base, rel, nomem>>
Free(id) ==
  /\ phase = "call" /\ phase' = "exec"
  /\ IF id < 0 THEN UNCHANGED <<mem, freed>>
     ELSE id \in DOMAIN mem /\ mem' = Without(mem, {id}) /\ freed' = freed \cup {id}
  /\ UNCHANGED <<base, new, rel, nomem>>
Store(id, o, b) ==
  /\ phase = "call" /\ phase' = "exec"
  /\ mem' = [mem EXCEPT ![id] = Patch(@, o, b)] /\ UNCHANGED <<base, new, freed, rel, nomem>>
Load(id, o, b) ==
  /\ phase = "call" /\ phase' = "exec"
  /\ b = SubSeq(mem[id], o + 1, o + Len(b)) /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>

SysFree(id) ==
  /\ \/ phase = "apply" /\ id \in freed
     \/ phase \in {"fail", "undo"} /\ id \in new
  /\ id \notin rel
  /\ rel' = rel \cup {id}
  /\ UNCHANGED <<base, mem, new, freed, phase, nomem>>

\* the attempt fails; in an operation only for want of memory
Fail == phase \in {"exec", "commit"} /\ phase' = "fail" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
Commit == phase = "exec" /\ phase' = "commit" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
Apply == phase = "commit" /\ phase' = "apply" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
Undo == /\ phase \in {"fail", "call"} /\ Must(phase = "call" => nomem)
        /\ nomem' = (phase = "call") /\ phase' = "undo" /\ UNCHANGED <<base, mem, new, freed, rel>>
FinishApply == phase = "apply" /\ Must(rel = freed) /\ base' = mem /\ phase' = "done" /\ UNCHANGED <<mem, new, freed, rel, nomem>>
FinishUndo == phase = "undo" /\ Must(rel = new) /\ phase' = "undone" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
Recover(enomem) == phase = "undone" /\ Must(enomem <=> nomem) /\ phase' = "recovery" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
Restart == phase = "recovery" /\ phase' = "restart" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ UNCHANGED <<base, mem, new, freed, rel, nomem>>
\* what the rest of the program finds in a block while no attempt is under way, or an attempt has just begun
Look(id, b) ==
  /\ phase \in {"idle", "recovery"} \/ phase = "exec"
  /\ id \in DOMAIN base /\ b = base[id]
  /\ UNCHANGED vars

----------------------------------------------------------------------------



=============================================================================
