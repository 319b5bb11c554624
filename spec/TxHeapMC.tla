------------------------------ MODULE TxHeapMC ------------------------------
EXTENDS TxHeap, TLC
CONSTANTS Block, MaxOps
VARIABLES n, live     \* live: what the system allocator has handed out
mvars == <<vars, n, live>>
B == {<<0>>, <<1>>}
More == n < MaxOps /\ n' = n + 1
Same == UNCHANGED <<n, live>>
MInit == Init /\ n = 0 /\ live = {}
MNext ==
  \/ \E id \in Block, b \in B : id \notin live /\ More /\ live' = live \cup {id} /\ Ext(id, b)
  \/ Begin /\ Same
  \/ phase = "exec" /\ More /\ Call /\ UNCHANGED live
  \/ ~nomem /\ NoMem /\ Same
  \/ \E op \in {"malloc", "calloc"}, id \in Block \ live, b \in B : Alloc(op, -1, id, 1, b) /\ live' = live \cup {id} /\ UNCHANGED n
  \/ \E from \in DOMAIN mem : \/ \E id \in Block \ live, b \in B : Alloc("realloc", from, id, 1, b) /\ live' = live \cup {id} /\ UNCHANGED n
                              \/ Alloc("realloc", from, -1, 0, <<>>) /\ Same
  \/ \E id \in DOMAIN mem \cup {-1} : Free(id) /\ Same
  \/ \E id \in DOMAIN mem, b \in B : Store(id, 0, b) /\ Same
  \/ \E id \in Block : SysFree(id) /\ live' = live \ {id} /\ UNCHANGED n
  \/ (Fail \/ Commit \/ Apply \/ Undo \/ FinishApply \/ FinishUndo \/ (\E b \in BOOLEAN : Recover(b)) \/ Restart \/ End) /\ Same
MSpec == MInit /\ [][MNext]_mvars
\* the blocks of the system and those of the program agree whenever no attempt is under way
Exact == phase \in {"idle", "recovery", "restart"} => live = DOMAIN base
\* memory visible to a transaction or to the program is never given back
Safe == DOMAIN base \subseteq live \/ phase \in {"apply", "commit"}
MemSafe == phase \in {"exec", "call"} => DOMAIN mem \subseteq live
Unchanged == [][(phase = "undo") => base' = base]_mvars
=============================================================================
