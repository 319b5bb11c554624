------------------------------ MODULE TxFpuMC ------------------------------
EXTENDS TxFpu, FiniteSets
CONSTANTS Flags, Rnds, Outs
VARIABLE start
MInit == Init /\ start = <<{}, 0, 0>>
Calls == [r : {"v"}, raised : SUBSET Flags, errno : {0, EDOM, ERANGE}, rep : BOOLEAN, o : BOOLEAN]
MNext == \/ \E f \in SUBSET Flags, r \in Rnds : Set(f, r, 0) /\ UNCHANGED start
         \/ Begin /\ start' = <<fl, rnd, out>>
         \/ /\ UNCHANGED start
            /\ \/ \E f \in SUBSET Flags, r \in Rnds : Env(f, r)
               \/ \E f \in SUBSET Flags : Flag(f)
               \/ \E c \in Calls : Call(c)
               \/ \E r \in {"v"}, f \in SUBSET Flags, m \in Rnds, o \in Outs : Ret(r, f, m, o)
               \/ Fail \/ Commit \/ Apply \/ Undo \/ Finish \/ Restart \/ End
               \/ \E v \in {EDOM, ERANGE, 123} : Recover(4, v)
MSpec == MInit /\ [][MNext]_<<vars, start>>
(* a rolled-back attempt leaves nothing behind *)
Restored == (phase \in {"undone", "failed", "recovery", "restart"}) => (<<fl, rnd, out>> = start)
(* a call never removes a flag and never reports an error of an earlier call *)
Sticky == [][(phase = "call" /\ phase' = "exec") => (fl \subseteq fl')]_vars
NoStale == [][(phase = "call" /\ phase' = "errundo") => (cur.errno # 0 \/ cur.raised # {})]_vars
Reported == [][(phase = "call" /\ phase' = "exec" /\ cur.rep) => (cur.errno = 0 /\ cur.raised \cap {"V", "Z", "O"} = {})]_vars
(* what has been done is kept by the commit *)
Kept == [][(phase \in {"commit", "apply", "done"} /\ phase' \in {"apply", "done", "idle"}) => (<<fl', rnd', out'>> = <<fl, rnd, out>>)]_vars
=============================================================================
