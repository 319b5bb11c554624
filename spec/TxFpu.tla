------------------------------- MODULE TxFpu -------------------------------
(* Floating-point environment in transactions: status flags and rounding mode *)
(* are thread state that math functions (and other modules, which announce it *)
(* with picotm_libm_save_fenv()/_fexcept()) change. A math function behaves   *)
(* like the plain function: it returns the same value and adds the flags that *)
(* the plain function raises; errors of this very call, and of no other, are  *)
(* reported. A rollback restores flags, rounding mode and output arguments.   *)
EXTENDS Integers
VARIABLES fl,      \* status flags: subset of {V, Z, O, U, X}
          rnd,     \* rounding mode
          out,     \* contents of the location for results by pointer
          saved,   \* <<fl, rnd, out>> of the beginning of the attempt
          cur,     \* the call in progress: [r, raised, errno, rep, o]
          phase    \* idle, exec, call, commit, apply, fail, error, undo, undone, errundo, failed, done, recovery, restart
vars == <<fl, rnd, out, saved, cur, phase>>
Must(p) == p = TRUE
None == [r |-> "", raised |-> {}, errno |-> 0, rep |-> FALSE, o |-> FALSE]
EDOM == 33
ERANGE == 34
(* errors that a call has to report, and that it is allowed to report *)
MustFail(c) == c.rep /\ (c.errno # 0 \/ c.raised \cap {"V", "Z", "O"} # {})
MayFail(c) == c.rep /\ (MustFail(c) \/ "U" \in c.raised)
Codes(c) == (IF c.errno # 0 THEN {c.errno} ELSE {})
            \cup (IF "V" \in c.raised THEN {EDOM} ELSE {})
            \cup (IF c.raised \cap {"Z", "O", "U"} # {} THEN {ERANGE} ELSE {})
Init == fl = {} /\ rnd = 0 /\ out = 0 /\ saved = <<{}, 0, 0>> /\ cur = None /\ phase = "idle"
Set(f, r, o) == phase = "idle" /\ fl' = f /\ rnd' = r /\ out' = o /\ UNCHANGED <<saved, cur, phase>>
Begin == phase \in {"idle", "undone", "restart"} /\ saved' = <<fl, rnd, out>> /\ phase' = "exec" /\ UNCHANGED <<fl, rnd, out, cur>>
Env(f, r) == phase = "exec" /\ fl' = f /\ rnd' = r /\ UNCHANGED <<out, saved, cur, phase>>
Flag(f) == phase = "exec" /\ fl' = f /\ UNCHANGED <<rnd, out, saved, cur, phase>>
Call(c) == phase = "exec" /\ cur' = c /\ phase' = "call" /\ UNCHANGED <<fl, rnd, out, saved>>
Ret(r, f, m, o) ==
    /\ phase = "call" /\ ~MustFail(cur)
    /\ r = cur.r
    /\ f = fl \cup cur.raised
    /\ m = rnd
    /\ IF cur.o THEN TRUE ELSE o = out
    /\ fl' = f /\ out' = o /\ phase' = "exec" /\ UNCHANGED <<rnd, saved, cur>>
Fail == phase \in {"exec", "commit"} /\ phase' = "fail" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
Commit == phase = "exec" /\ phase' = "commit" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
Apply == phase = "commit" /\ phase' = "apply" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
Undo == /\ phase = "fail" \/ (phase = "call" /\ MayFail(cur))
        /\ phase' = IF phase = "fail" THEN "undo" ELSE "errundo"
        /\ fl' = saved[1] /\ rnd' = saved[2] /\ out' = saved[3] /\ UNCHANGED <<saved, cur>>
Finish == /\ phase \in {"apply", "undo", "errundo"}
          /\ phase' = CASE phase = "apply" -> "done" [] phase = "undo" -> "undone" [] phase = "errundo" -> "failed"
          /\ UNCHANGED <<fl, rnd, out, saved, cur>>
(* the error of a math function is an errno, other errors are the driver's *)
Recover(st, v) ==
    /\ \/ phase = "undone" /\ v = 123
       \/ phase = "failed" /\ st = 4 /\ v \in Codes(cur)
    /\ phase' = "recovery" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
Restart == phase = "recovery" /\ phase' = "restart" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ UNCHANGED <<fl, rnd, out, saved, cur>>
Look(f, r, o) == /\ phase \in {"idle", "exec", "recovery"}
                 /\ f = fl /\ r = rnd /\ o = out
                 /\ UNCHANGED vars
=============================================================================
