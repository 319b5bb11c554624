----------------------------- MODULE TxStreamMC -----------------------------
(* How the library releases output, against TxStream: the bytes of a          *)
(* revocable transaction's writes are appended to one buffer per file and     *)
(* recorded in the file's table; the log of the transaction keeps the         *)
(* descriptor and the index into the table. The commit walks the log and      *)
(* writes to the descriptors, in one or more pieces, and closes descriptors.  *)
EXTENDS TxStream, TLC
CONSTANTS MaxOps, Bad
VARIABLES n,
          kq,               \* channel -> bytes in the kernel
          kfds,             \* open descriptors
          buf, tab,         \* file -> bytes; sequence of [at, len]
          ilog,             \* sequence of [n, fd, i]
          todo, part,       \* events that the commit still has to apply; bytes of the first one that are out
          lost              \* the commit has written to a closed descriptor
ivars == <<kq, kfds, buf, tab, ilog, todo, part, lost>>
Files == {1, 2}
\* descriptors 3 and 4 share a pipe; 5 is another one
MInit == /\ q = [c \in {1, 2} |-> <<>>] /\ shut = {} /\ paths = {} /\ lq = <<>> /\ tlog = <<>> /\ closing = {} /\ used = {}
         /\ ofd = [o \in {1, 2} |-> Desc(o, o, 0, FALSE, FALSE, "w")] /\ fds = [fd \in {3, 4, 5} |-> IF fd = 5 THEN 2 ELSE 1]
         /\ saved = fds /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle"
         /\ n = 0 /\ kq = q /\ kfds = {3, 4, 5} /\ buf = [f \in Files |-> <<>>] /\ tab = [f \in Files |-> <<>>]
         /\ ilog = <<>> /\ todo = <<>> /\ part = 0 /\ lost = FALSE
More == n < MaxOps /\ n' = n + 1
Fd == DOMAIN fds \ closing
W(fd, b) ==
  LET f == Ofd(fd).f  at == IF Bad = "offset" THEN 0 ELSE Len(buf[f]) IN
  /\ More /\ phase = "exec" /\ LET x == DoWrite(fd, b) IN Become(x.s) /\ UNCHANGED <<used, saved, irr, pend, expect, phase>>
  /\ IF irr THEN /\ kq' = [kq EXCEPT ![Ofd(fd).w] = @ \o b] /\ UNCHANGED <<buf, tab, ilog>>
     ELSE /\ buf' = [buf EXCEPT ![f] = @ \o b] /\ tab' = [tab EXCEPT ![f] = Append(@, [at |-> at, len |-> Len(b)])]
          /\ ilog' = Append(ilog, [n |-> "write", fd |-> fd, i |-> Len(tab[f]) + 1]) /\ UNCHANGED kq
  /\ UNCHANGED <<kfds, todo, part, lost>>
C(fd) == /\ More /\ phase = "exec" /\ Become(DoClose(fd).s) /\ UNCHANGED <<used, saved, irr, pend, expect, phase>>
         /\ ilog' = IF Bad = "early" THEN <<[n |-> "close", fd |-> fd, i |-> 0]>> \o ilog ELSE Append(ilog, [n |-> "close", fd |-> fd, i |-> 0])
         /\ UNCHANGED <<kq, kfds, buf, tab, todo, part, lost>>
Idle == UNCHANGED ivars /\ UNCHANGED n
\* the buffers are reset when the next transaction first uses the file
MBegin(i) == /\ n < MaxOps /\ Begin(i) /\ UNCHANGED <<n, kq, kfds, todo, part, lost>> /\ ilog' = <<>>
             /\ buf' = [f \in Files |-> <<>>] /\ tab' = [f \in Files |-> <<>>]
MApply == Apply /\ todo' = ilog /\ part' = 0 /\ UNCHANGED <<n, kq, kfds, buf, tab, ilog, lost>>
Step ==
  /\ phase = "apply" /\ todo # <<>>
  /\ LET e == Head(todo) IN
     IF e.n = "close" THEN /\ kfds' = kfds \ {e.fd} /\ todo' = Tail(todo) /\ part' = 0 /\ UNCHANGED <<kq, lost>>
     ELSE LET o == (IF e.fd = 5 THEN 2 ELSE 1)  t == tab[o][e.i] IN
          \E k \in 1..(t.len - part) :
            /\ kq' = [kq EXCEPT ![o] = @ \o SubSeq(buf[o], t.at + part + 1, t.at + part + k)]
            /\ lost' = (lost \/ e.fd \notin kfds) /\ UNCHANGED kfds
            /\ IF part + k = t.len \/ Bad = "short" THEN todo' = Tail(todo) /\ part' = 0 ELSE todo' = todo /\ part' = part + k
  /\ UNCHANGED <<vars, n, buf, tab, ilog>>
MFinish == Finish /\ (phase = "apply" => todo = <<>>) /\ Idle
MNext ==
  \/ \E fd \in Fd : W(fd, <<n + 1>>) \/ W(fd, <<n + 1, n + 1>>) \/ C(fd)
  \/ \E i \in BOOLEAN : MBegin(i)
  \/ MApply \/ Step \/ MFinish
  \/ (phase = "exec" /\ ~irr /\ Stop /\ Idle) \/ (Undo(0) /\ Idle) \/ (Commit /\ Idle) \/ (End /\ Idle)
MSpec == MInit /\ [][MNext]_<<vars, n, ivars>>
Settled == phase \notin {"commit", "apply"}
Released == Settled => kq = q
Order == ~lost
Closed == Settled => kfds = DOMAIN fds
=============================================================================
