------------------------------ MODULE TxFileMC ------------------------------
(* The write log of the library, against the transaction's view of TxFile:    *)
(* writes are kept with their offsets, reads lay them over the file, offset   *)
(* and size are looked up once and cached, and the events are replayed on the *)
(* file when the transaction commits. In irrevocable transactions, writes and *)
(* seeks go to the file at once.                                              *)
EXTENDS TxFile, TLC
CONSTANTS Off, Len_, MaxOps, Bad
VARIABLES n, log, ev, loff, lsize, disk, koff
ivars == <<log, ev, loff, lsize, disk, koff>>
mvars == <<vars, n, ivars>>
U == -1
F == 1
Overlay == LET RECURSIVE O(_, _)
               O(d, i) == IF i > Len(log) THEN d ELSE O(WriteAt(d, log[i].off, log[i].b), i + 1)
           IN O(disk, 1)
LOff(o) == IF loff[o] = U THEN koff[o] ELSE loff[o]
LSize == IF lsize = U THEN Len(disk) ELSE lsize
\* read a region from the file, and lay the log over it
IRead(off, k) ==
  LET size == Len(disk)
      m == Min2(k, Max2(0, LSize - off))
      raw == [i \in 1..m |-> IF off + i <= size THEN disk[off + i] ELSE 0]
      RECURSIVE L(_, _)
      L(b, j) == IF j > Len(log) THEN b
                 ELSE L([i \in 1..m |-> LET p == off + i - log[j].off IN IF p >= 1 /\ p <= Len(log[j].b) THEN log[j].b[p] ELSE b[i]], j + 1)
  IN IF Bad = "nolog" THEN raw ELSE L(raw, 1)
App(o) == ofd[o].app
AtEnd(o) == IF App(o) THEN LSize ELSE LOff(o)
IWrite(o, off, b, seek) ==
  /\ lsize' = Max2(LSize, off + Len(b))
  /\ loff' = IF seek THEN [loff EXCEPT ![o] = off + Len(b)] ELSE loff
  /\ IF irr THEN /\ disk' = WriteAt(disk, off, b) /\ koff' = IF seek THEN [koff EXCEPT ![o] = off + Len(b)] ELSE koff
                 /\ UNCHANGED <<log, ev>>
     ELSE /\ log' = Append(log, [off |-> off, b |-> b])
          /\ ev' = Append(ev, [n |-> "w", o |-> o, off |-> off, b |-> b, seek |-> seek])
          /\ UNCHANGED <<disk, koff>>
INone == UNCHANGED ivars
\* replaying the events
Replay == LET RECURSIVE R(_, _)
              R(s, i) ==
                IF i > Len(ev) THEN s
                ELSE LET e == ev[i] IN
                  R(CASE e.n = "w" -> [d |-> WriteAt(s.d, e.off, e.b), k |-> IF e.seek THEN [s.k EXCEPT ![e.o] = e.off + Len(e.b)] ELSE s.k]
                      [] e.n = "r" -> [s EXCEPT !.k[e.o] = e.off]
                      [] e.n = "s" -> [s EXCEPT !.k[e.o] = CASE e.wh = "set" -> e.off [] e.wh = "cur" -> @ + e.off [] e.wh = "end" -> Len(s.d) + e.off],
                    i + 1)
          IN R([d |-> disk, k |-> koff], 1)
More == n < MaxOps /\ n' = n + 1
Bytes == {<<n + 1>>, <<n + 1, 20 + n>>}
OpStep(x) == /\ phase = "exec" /\ x.ok /\ Become(x.s) /\ UNCHANGED <<used, saved, irr, pend, expect, phase>>
Ofds == DOMAIN ofd
FdOf(o) == CHOOSE fd \in DOMAIN fds : fds[fd].o = o
WriteOp(o, b) == /\ More /\ OpStep(DoWrite(FdOf(o), b)) /\ IWrite(o, AtEnd(o), b, TRUE)
PwriteOp(o, b, off) == /\ More /\ OpStep(DoPwrite(FdOf(o), b, off)) /\ IWrite(o, IF App(o) THEN LSize ELSE off, b, FALSE)
VARIABLE got
ReadOp(o, k) == LET x == DoRead(FdOf(o), k)  off == LOff(o)  b == IRead(off, k) IN
  /\ More /\ OpStep(x) /\ got' = (b = x.out)
  /\ loff' = [loff EXCEPT ![o] = off + Len(b)]
  /\ IF irr THEN koff' = [koff EXCEPT ![o] = off + Len(b)] /\ UNCHANGED ev
     ELSE ev' = Append(ev, [n |-> "r", o |-> o, off |-> IF Bad = "eof" THEN off + k ELSE off + Len(b)]) /\ UNCHANGED koff
  /\ UNCHANGED <<log, lsize, disk>>
PreadOp(o, k, off) == LET x == DoPread(FdOf(o), k, off) IN
  More /\ OpStep(x) /\ got' = (IRead(off, k) = x.out) /\ INone
SeekOp(o, off, wh) == LET x == DoLseek(FdOf(o), off, wh)
                          to == CASE wh = "set" -> off [] wh = "cur" -> LOff(o) + off [] wh = "end" -> LSize + off IN
  /\ More /\ OpStep(x) /\ got' = (x.out = to)
  /\ loff' = [loff EXCEPT ![o] = to]
  /\ IF irr THEN koff' = [koff EXCEPT ![o] = to] /\ UNCHANGED ev
     ELSE ev' = Append(ev, [n |-> "s", o |-> o, off |-> off, wh |-> wh]) /\ UNCHANGED koff
  /\ UNCHANGED <<log, lsize, disk>>
FstatOp(o) == LET x == DoFstat(FdOf(o)) IN More /\ OpStep(x) /\ got' = (x.out[3] = LSize) /\ INone
Clear == log' = <<>> /\ ev' = <<>> /\ loff' = [o \in Ofds |-> U] /\ lsize' = U
Ob(o, a) == [f |-> F, off |-> 0, acc |-> "rw", app |-> a]
MInit == /\ kind = [f \in {F} |-> "f"] /\ \E k \in 0..2 : data = [f \in {F} |-> [i \in 1..k |-> 9]]
         /\ mode = [f \in {F} |-> 384] /\ names = Empty
         /\ \E a \in BOOLEAN : ofd = [o \in {1, 2} |-> Ob(o, o = 2 /\ a)]
         /\ fds = [fd \in {1, 2} |-> [o |-> fd, ce |-> FALSE]]
         /\ tdata = data /\ toff = Offs /\ closing = {} /\ used = {} /\ fresh = {}
         /\ saved = [fds |-> fds, mode |-> mode] /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle"
         /\ n = 0 /\ log = <<>> /\ ev = <<>> /\ loff = [o \in {1, 2} |-> U] /\ lsize = U /\ disk = data[F] /\ koff = Offs /\ got = TRUE
Same == UNCHANGED <<n, ivars>>
MNext ==
  \/ \E o \in Ofds, b \in Bytes : WriteOp(o, b) /\ got' = TRUE
  \/ \E o \in Ofds, b \in Bytes, p \in Off : PwriteOp(o, b, p) /\ got' = TRUE
  \/ \E o \in Ofds, k \in Len_ : ReadOp(o, k)
  \/ \E o \in Ofds, k \in Len_, p \in Off : PreadOp(o, k, p)
  \/ \E o \in Ofds, p \in Off \cup {-1}, wh \in {"set", "cur", "end"} : ~(p = 0 /\ wh = "cur") /\ SeekOp(o, p, wh)
  \/ \E o \in Ofds : FstatOp(o)
  \/ got' = got /\
     \/ phase # "restart" /\ n < MaxOps /\ (\E i \in BOOLEAN : Begin(i)) /\ Same
     \/ phase = "restart" /\ Begin(TRUE) /\ Same
     \/ (Stop \/ Commit \/ Fault) /\ ~irr /\ Same
     \/ Commit /\ irr /\ Same
     \/ /\ phase = "fail" /\ Undo(0) /\ Clear /\ UNCHANGED <<n, disk, koff>>
     \/ /\ Apply /\ Clear /\ LET r == Replay IN disk' = r.d /\ koff' = r.k
        /\ UNCHANGED n
     \/ (Finish \/ Recover(0) \/ Restart \/ End) /\ Same
MSpec == MInit /\ [][MNext]_<<mvars, got>>
\* every result is the one of a direct call
Results == got
\* what is on the disk, and the kernel's offsets, are those of TxFile: unchanged before the commit of a revocable
\* transaction and after a roll back, and with all effects of the calls after a commit
Disk == phase \in {"idle", "undone", "done", "recovery", "restart"} => disk = data[F] /\ koff = Offs
Isolated == (phase \in {"exec", "commit", "fail"} /\ ~irr) => disk = data[F] /\ koff = Offs
View == phase = "exec" => Overlay = tdata[F] /\ LSize = Len(tdata[F]) /\ \A o \in Ofds : LOff(o) = toff[o]
=============================================================================
