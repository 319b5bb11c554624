------------------------------- MODULE TxExit -------------------------------
(* A process that ends in a transaction: exit(), _exit(), _Exit() and abort() *)
(* are the transaction's last operation. They commit the transaction; if that *)
(* fails, the process does not end, but the transaction restarts or goes into *)
(* recovery. mem and file are what others see.                                *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Cell, File
VARIABLES phase,  \* idle, exec, leave, commit, apply, fail, undo, undone, done, recovery, restart
          mem, view,
          file, app,
          how,    \* how the process ends, once decided
          hooks,  \* what atexit() has been given, the last first
          cur     \* the hook that is running
vars == <<phase, mem, view, file, app, how, hooks, cur>>
Must(p) == p = TRUE
Not == [how |-> "not", st |-> 0]
SIGABRT == 6
Init == /\ phase = "idle" /\ mem = [c \in Cell |-> 0] /\ view = mem /\ file = [f \in File |-> <<>>] /\ app = file
        /\ how = Not /\ hooks = <<>> /\ cur = 0
Ph(p) == phase' = p
Data == <<mem, view, file, app>>
AtExit(k) == phase = "idle" /\ how = Not /\ hooks' = <<k>> \o hooks /\ UNCHANGED <<phase, mem, view, file, app, how, cur>>
Begin == /\ phase \in {"idle", "undone", "restart"} /\ (how = Not \/ cur # 0)
         /\ Ph("exec") /\ view' = mem /\ app' = [f \in File |-> <<>>] /\ UNCHANGED <<mem, file, how, hooks, cur>>
Load(c, v) == phase = "exec" /\ Must(v = view[c]) /\ UNCHANGED vars
Store(c, v) == phase = "exec" /\ view' = [view EXCEPT ![c] = v] /\ UNCHANGED <<phase, mem, file, app, how, hooks, cur>>
Write(f, b) == phase = "exec" /\ app' = [app EXCEPT ![f] = @ \o b] /\ UNCHANGED <<phase, mem, view, file, how, hooks, cur>>
Leave(h, s) == phase = "exec" /\ cur = 0 /\ Ph("leave") /\ how' = [how |-> h, st |-> s] /\ UNCHANGED <<Data, hooks, cur>>
Commit == phase \in {"exec", "leave"} /\ Ph("commit") /\ UNCHANGED <<Data, how, hooks, cur>>
\* the attempt fails, and with it the decision to leave
Fail == phase \in {"exec", "commit"} /\ cur = 0 /\ Ph("fail") /\ how' = Not /\ UNCHANGED <<Data, hooks, cur>>
Apply == /\ phase = "commit" /\ Ph("apply") /\ mem' = view /\ file' = [f \in File |-> file[f] \o app[f]]
         /\ UNCHANGED <<view, app, how, hooks, cur>>
Undo == phase = "fail" /\ Ph("undo") /\ UNCHANGED <<Data, how, hooks, cur>>
Finish == /\ \/ phase = "apply" /\ Ph("done")
             \/ phase = "undo" /\ Ph("undone")
          /\ UNCHANGED <<Data, how, hooks, cur>>
Recover == phase = "undone" /\ Ph("recovery") /\ UNCHANGED <<Data, how, hooks, cur>>
Restart == phase = "recovery" /\ Ph("restart") /\ UNCHANGED <<Data, how, hooks, cur>>
\* the program goes on after the transaction; not if it was to leave
End == phase \in {"done", "recovery"} /\ (how = Not \/ cur # 0) /\ Ph("idle") /\ UNCHANGED <<Data, how, hooks, cur>>
\* exit() outside of transactions
Bye(s) == phase = "idle" /\ how = Not /\ Ph("done") /\ how' = [how |-> "exit", st |-> s] /\ UNCHANGED <<Data, hooks, cur>>
Seen(m) == \A c \in Cell : m[c] = mem[c]
Hook(k, m) == /\ phase = "done" /\ cur = 0 /\ how.how = "exit" /\ hooks # <<>> /\ Must(k = Head(hooks) /\ Seen(m))
              /\ cur' = k /\ hooks' = Tail(hooks) /\ Ph("idle") /\ UNCHANGED <<Data, how>>
HookEnd == phase = "idle" /\ cur # 0 /\ cur' = 0 /\ Ph("done") /\ UNCHANGED <<Data, how, hooks>>
Gone(h, s) == /\ phase = "done" /\ cur = 0 /\ how # Not
              /\ Must(IF how.how = "abort" THEN h = "killed" /\ s = SIGABRT ELSE h = "exited" /\ s = how.st)
              /\ Must(how.how = "exit" => hooks = <<>>)
              /\ Ph("gone") /\ UNCHANGED <<Data, how, hooks, cur>>
LookMem(m) == phase = "gone" /\ Must(Seen(m)) /\ UNCHANGED vars
LookFile(f, b) == phase = "gone" /\ Must(file[f] = b) /\ UNCHANGED vars
=============================================================================
