----------------------------- MODULE TxFileCMC -----------------------------
(* The library's locking of files, against TxFileC: a file offset, a file     *)
(* size and records of RecSize bytes are locked for reading or writing until  *)
(* the end of the attempt; writes are kept in a log until the commit, which   *)
(* writes them to the file one by one. A reader beyond the end of the file    *)
(* depends on the size. Each lock is taken in a step of its own, and the file *)
(* is read afterwards.                                                        *)
EXTENDS TxFileC, TLC
CONSTANTS RecSize, MaxOps, Bad
VARIABLES n, disk, koff,   \* what the file and the shared offset are
          locks,           \* thread -> [resource -> "r" or "w"]
          todo,            \* thread -> locks that the call under way still has to take
          wlog, lsize, loff, \* thread -> writes, cached size and offset
          steps,           \* thread -> writes that the commit still has to execute
          got              \* results have been those of TxFileC
ivars == <<disk, koff, locks, todo, wlog, lsize, loff, steps>>
F == 1  FD == 3  U == -1
Res == {<<"rec", i>> : i \in 0..9} \cup {<<"size", 0>>, <<"off", 0>>}
Recs(o, k, m) == [i \in 1..(IF k = 0 THEN 0 ELSE 1 + ((o + k - 1) \div RecSize) - (o \div RecSize)) |->
                   <<<<"rec", (o \div RecSize) + i - 1>>, m>>]
First(s) == IF Bad = "firstrec" /\ Len(s) > 1 THEN <<s[1]>> ELSE s
LOff(t) == IF loff[t] = U THEN koff ELSE loff[t]
LSize(t) == IF lsize[t] = U THEN Len(disk) ELSE lsize[t]
Can(t, r, m) == \A u \in Thread \ {t} : r \in DOMAIN locks[u] => (m = "r" /\ locks[u][r] = "r")
Take(t, r, m) == locks' = [locks EXCEPT ![t] = Ext(@, r, IF r \in DOMAIN @ /\ @[r] = "w" THEN "w" ELSE m)]
Overlay(t, b, o) == LET RECURSIVE L(_, _)
  L(x, j) == IF j > Len(wlog[t]) THEN x
             ELSE L([i \in DOMAIN x |-> LET p == o + i - wlog[t][j].off IN IF p >= 1 /\ p <= Len(wlog[t][j].b) THEN wlog[t][j].b[p] ELSE x[i]], j + 1)
  IN L(b, 1)
IRead(t, o, k) == LET m == Min2(k, Max2(0, LSize(t) - o)) IN
  Overlay(t, [i \in 1..m |-> IF o + i <= Len(disk) THEN disk[o + i] ELSE 0], o)
-----------------------------------------------------------------------------
Ops == {[n |-> "read", fd |-> FD, len |-> 2], [n |-> "pread", fd |-> FD, len |-> 3, off |-> 1],
        [n |-> "write", fd |-> FD, b |-> <<n + 1>>], [n |-> "pwrite", fd |-> FD, b |-> <<n + 1, n + 1>>, off |-> 1],
        [n |-> "pwrite", fd |-> FD, b |-> <<n + 1>>, off |-> 4], [n |-> "seek", fd |-> FD, off |-> 0, wh |-> "end"]}
\* the locks that a call takes first
LocksOf(t, op) ==
  CASE op.n = "read" -> <<<<<<"off", 0>>, "w">>>> \o First(Recs(LOff(t), op.len, "r"))
    [] op.n = "pread" -> First(Recs(op.off, op.len, "r"))
    [] op.n = "write" -> <<<<<<"off", 0>>, "w">>>> \o (IF ofd[1].app THEN <<<<<<"size", 0>>, "w">>>> ELSE <<>>)
    [] op.n = "pwrite" -> IF ofd[1].app THEN <<<<<<"size", 0>>, "w">>>>
                          ELSE First(Recs(op.off, Len(op.b), "w")) \o <<<<<<"size", 0>>, "r">>>>
    [] op.n = "seek" -> <<<<<<"off", 0>>, "w">>, <<<<"size", 0>>, "r">>>>
\* locks whose need follows from what the call has found so far
Late(t, op) ==
  CASE op.n = "read" -> IF LOff(t) + op.len > Len(disk) /\ Bad # "nosize" THEN <<<<<<"size", 0>>, "r">>>> ELSE <<>>
    [] op.n = "pread" -> IF op.off + op.len > Len(disk) /\ Bad # "nosize" THEN <<<<<<"size", 0>>, "r">>>> ELSE <<>>
    [] op.n = "write" -> First(Recs(IF ofd[1].app THEN LSize(t) ELSE LOff(t), Len(op.b), "w"))
                         \o <<<<<<"size", 0>>, IF LOff(t) + Len(op.b) > LSize(t) THEN "w" ELSE "r">>>>
    [] op.n = "pwrite" /\ ofd[1].app -> First(Recs(LSize(t), Len(op.b), "w"))
    [] op.n = "pwrite" /\ ~ofd[1].app -> IF op.off + Len(op.b) > LSize(t) THEN <<<<<<"size", 0>>, "w">>>> ELSE <<>>
    [] OTHER -> <<>>
Held(t, q) == \A i \in DOMAIN q : q[i][1] \in DOMAIN locks[t] /\ (q[i][2] = "w" => locks[t][q[i][1]] = "w")
More == n < MaxOps /\ n' = n + 1
ICall(t, op) == /\ More /\ Call(t, op) /\ todo' = [todo EXCEPT ![t] = LocksOf(t, op)]
                /\ UNCHANGED <<disk, koff, locks, wlog, lsize, loff, steps>>
ILock(t) == /\ pend[t] # None /\ todo[t] # <<>>
            /\ LET q == Head(todo[t]) IN Can(t, q[1], q[2]) /\ Take(t, q[1], q[2])
            /\ todo' = [todo EXCEPT ![t] = Tail(@)]
            \* offset and size are looked up as soon as they are locked
            /\ LET r == Head(todo[t])[1] IN
               /\ loff' = IF r[1] = "off" THEN [loff EXCEPT ![t] = LOff(t)] ELSE loff
               /\ lsize' = IF r[1] = "size" THEN [lsize EXCEPT ![t] = LSize(t)] ELSE lsize
            /\ UNCHANGED <<vars, n, disk, koff, wlog, steps>>
ILate(t) == /\ pend[t] # None /\ todo[t] = <<>> /\ ~Held(t, Late(t, pend[t]))
            /\ todo' = [todo EXCEPT ![t] = Late(t, pend[t])] /\ UNCHANGED <<vars, n, disk, koff, locks, wlog, lsize, loff, steps>>
Result(t, op) ==
  CASE op.n = "read" -> IRead(t, LOff(t), op.len) [] op.n = "pread" -> IRead(t, op.off, op.len)
    [] op.n \in {"write", "pwrite"} -> Len(op.b) [] op.n = "seek" -> LSize(t)
IRet(t) ==
  LET op == pend[t]  r == Result(t, op)  at == IF op.n = "write" THEN (IF ofd[1].app THEN LSize(t) ELSE LOff(t)) ELSE IF op.n = "pwrite" THEN (IF ofd[1].app THEN LSize(t) ELSE op.off) ELSE 0 IN
  /\ op # None /\ todo[t] = <<>> /\ Held(t, Late(t, op))
  /\ got' = (got /\ Do(Run(log[t]), op).r = r)
  /\ log' = [log EXCEPT ![t] = Append(@, [op |-> op, r |-> r])] /\ pend' = [pend EXCEPT ![t] = None]
  /\ wlog' = IF op.n \in {"write", "pwrite"} THEN [wlog EXCEPT ![t] = Append(@, [off |-> at, b |-> op.b])] ELSE wlog
  /\ lsize' = IF op.n \in {"write", "pwrite"} THEN [lsize EXCEPT ![t] = Max2(LSize(t), at + Len(op.b))] ELSE lsize
  /\ loff' = CASE op.n = "read" -> [loff EXCEPT ![t] = LOff(t) + Len(r)] [] op.n = "write" -> [loff EXCEPT ![t] = at + Len(op.b)]
               [] op.n = "seek" -> [loff EXCEPT ![t] = LSize(t)] [] OTHER -> loff
  /\ UNCHANGED <<Base, ph, irr, use, seen, want, expect, n, disk, koff, locks, todo, steps>>
IConflict(t) == /\ pend[t] # None /\ todo[t] # <<>> /\ ~Can(t, Head(todo[t])[1], Head(todo[t])[2]) /\ Undo(t)
                /\ UNCHANGED <<n, ivars>>
\* commits: valid is kept, then the log is executed, one write at a time
IApply(t) == /\ ph[t] = "prep" /\ ph' = [ph EXCEPT ![t] = "apply"]
             /\ got' = (got /\ AllSame(log[t]))
             /\ LET s == Run(log[t]) IN data' = s.d /\ mode' = s.m /\ ofd' = s.o
             /\ steps' = [steps EXCEPT ![t] = wlog[t]]
             /\ UNCHANGED <<fdo, irr, log, pend, use, seen, want, expect, n, disk, koff, locks, todo, wlog, lsize, loff>>
IStep(t) == /\ ph[t] = "apply" /\ steps[t] # <<>>
            /\ disk' = WriteAt(disk, Head(steps[t]).off, Head(steps[t]).b) /\ steps' = [steps EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<vars, n, koff, locks, todo, wlog, lsize, loff>>
IFinish(t) == /\ steps[t] = <<>> /\ Finish(t)
              /\ koff' = IF ph[t] = "apply" THEN LOff(t) ELSE koff
              /\ locks' = [locks EXCEPT ![t] = Empty] /\ todo' = [todo EXCEPT ![t] = <<>>] /\ wlog' = [wlog EXCEPT ![t] = <<>>]
              /\ lsize' = [lsize EXCEPT ![t] = U] /\ loff' = [loff EXCEPT ![t] = U]
              /\ UNCHANGED <<n, disk, steps>>
MInit == /\ n = 0 /\ disk = <<7, 8, 9>> /\ koff \in {0, 2}
         /\ data = [f \in {F} |-> disk] /\ mode = [f \in {F} |-> 384] /\ fdo = [fd \in {FD} |-> 1]
         /\ \E a \in BOOLEAN : ofd = [o \in {1} |-> [f |-> F, off |-> koff, app |-> a]]
         /\ InitThreads
         /\ locks = [t \in Thread |-> Empty] /\ todo = [t \in Thread |-> <<>>] /\ wlog = [t \in Thread |-> <<>>]
         /\ lsize = [t \in Thread |-> U] /\ loff = [t \in Thread |-> U] /\ steps = [t \in Thread |-> <<>>] /\ got = TRUE
Idle == UNCHANGED <<n, ivars>>
MNext ==
  \/ \E t \in Thread : \/ (\E op \in Ops : ICall(t, op)) /\ got' = got
                       \/ IRet(t) \/ IApply(t)
                       \/ /\ got' = got
                          /\ \/ ILock(t) \/ ILate(t) \/ IConflict(t) \/ IStep(t) \/ IFinish(t)
                             \/ n < MaxOps /\ Begin(t, FALSE) /\ Idle
                             \/ log[t] # <<>> /\ Prepare(t) /\ Idle
                             \/ log[t] # <<>> /\ Undo(t) /\ pend[t] = None /\ Idle
                             \/ End(t) /\ Idle
mspec_vars == <<vars, n, ivars, got>>
MSpec == MInit /\ [][MNext]_mspec_vars
Results == got
Disk == (\A t \in Thread : ph[t] \notin {"prep", "apply"}) => disk = data[F] /\ koff = ofd[1].off
=============================================================================
