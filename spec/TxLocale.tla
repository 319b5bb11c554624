------------------------------ MODULE TxLocale ------------------------------
(* The process locale (six categories), the thread's current locale and       *)
(* locale objects in transactions. Objects are released when the transaction  *)
(* that frees them commits; the ones that it has created go away with a       *)
(* roll back.                                                                 *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANT Names, Cats           \* the names of installed locales; the categories
VARIABLES glob,   \* category -> name
          thr,    \* 0: the thread follows the process locale; otherwise an object
          objs,   \* live objects: object -> (category -> name)
          gone,   \* objects to be released with the commit
          saved,  \* state from before the attempt
          pend, expect, phase
vars == <<glob, thr, objs, gone, saved, pend, expect, phase>>
Must(p) == p = TRUE
None == [n |-> "none"]
ENOENT == 2
Init == /\ glob = [c \in Cats |-> "C"] /\ thr = 0 /\ objs = [x \in {} |-> 0] /\ gone = {}
        /\ saved = [glob |-> glob, thr |-> 0, objs |-> objs] /\ pend = None /\ expect = 0 /\ phase = "idle"
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Over(f, m, v) == [c \in Cats |-> IF c \in m THEN v ELSE f[c]]
Res(g, t, o, d) == [ok |-> TRUE, e |-> 0, glob |-> g, thr |-> t, objs |-> o, gone |-> d]
Fail(e) == [ok |-> FALSE, e |-> e, glob |-> glob, thr |-> thr, objs |-> objs, gone |-> gone]
Usable(o) == o \in DOMAIN objs \ gone
Contents(o) == IF o = 0 THEN glob ELSE objs[o]
(* operations; m is a set of categories, o an object, id the new object *)
DoSet(m, name) == IF name \notin Names THEN Fail(-1) ELSE Res(Over(glob, m, name), thr, objs, gone)
DoNew(m, name, base, id) ==
  IF name \notin Names /\ m # {} THEN Fail(ENOENT)
  ELSE Res(glob, thr, Ext(objs, id, Over(IF base = 0 THEN [c \in Cats |-> "C"] ELSE objs[base], m, name)),
           IF base = 0 THEN gone ELSE gone \cup {base})
DoDup(o, id) == Res(glob, thr, Ext(objs, id, Contents(o)), gone)
DoFree(o) == Res(glob, thr, objs, gone \cup {o})
DoUse(o) == Res(glob, o, objs, gone)
-----------------------------------------------------------------------------
Keep == UNCHANGED <<glob, thr, objs, gone, saved, pend, expect>>
Begin == /\ phase \in {"idle", "undone", "restart"} /\ phase' = "exec"
         /\ saved' = [glob |-> glob, thr |-> thr, objs |-> objs] /\ gone' = {} /\ expect' = 0 /\ UNCHANGED <<glob, thr, objs, pend>>
Call(op) == phase = "exec" /\ pend' = op /\ phase' = "call" /\ UNCHANGED <<glob, thr, objs, gone, saved, expect>>
Ret(x) == /\ phase = "call" /\ x.ok /\ phase' = "exec" /\ pend' = None
          /\ glob' = x.glob /\ thr' = x.thr /\ objs' = x.objs /\ gone' = x.gone /\ UNCHANGED <<saved, expect>>
Stop == phase = "exec" /\ phase' = "fail" /\ Keep
Fault == phase = "commit" /\ phase' = "fail" /\ Keep
Undo(e) == /\ phase \in {"call", "fail"} /\ phase' = "undo"
           /\ glob' = saved.glob /\ thr' = saved.thr /\ objs' = saved.objs /\ gone' = {} /\ expect' = e /\ pend' = None /\ UNCHANGED saved
Commit == phase = "exec" /\ phase' = "commit" /\ Keep
Apply == /\ phase = "commit" /\ phase' = "apply" /\ gone' = {}
         /\ objs' = [o \in DOMAIN objs \ gone |-> objs[o]] /\ UNCHANGED <<glob, thr, saved, pend, expect>>
Finish == Keep /\ \/ phase = "apply" /\ phase' = "done"
                  \/ phase = "undo" /\ phase' = "undone"
Recover == phase = "undone" /\ phase' = "recovery" /\ Keep
Restart == phase = "recovery" /\ phase' = "restart" /\ Keep
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ Keep
=============================================================================
