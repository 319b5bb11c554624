------------------------------- MODULE TxFile -------------------------------
(* Regular files, open file descriptions and file descriptors in              *)
(* transactions. data and the offsets of ofd are what the rest of the process *)
(* sees; tdata and toff are the transaction's view, which replaces them with  *)
(* the commit. Descriptors and files are created at once, and go away with a  *)
(* roll back; descriptors are closed with the commit.                         *)
EXTENDS FileOps, FiniteSets
VARIABLES kind,    \* file -> "f" (regular), "d" (directory)
          data,    \* file -> contents
          mode,    \* file -> permission bits
          names,   \* directory entries of the scratch directory: name -> file
          ofd,     \* open file description -> [f, off, acc, app]
          fds,     \* descriptor -> [o: description, ce: close-on-exec]
          tdata, toff,
          closing, \* descriptors to be closed with the commit
          used,    \* descriptors that the attempt has used
          fresh,   \* entries to be removed if the attempt does not commit
          saved,   \* fds and mode from before the attempt
          irr, pend, expect, phase
fvars == <<kind, data, mode, names, ofd, fds, tdata, toff, closing, used, fresh>>
vars == <<fvars, saved, irr, pend, expect, phase>>
Must(p) == p = TRUE
None == [n |-> "none"]
ENOENT == 2  EBADF == 9  EAGAIN == 11  EEXIST == 17  EISDIR == 21  EINVAL == 22  ESPIPE == 29
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Restrict(f, S) == [y \in DOMAIN f \cap S |-> f[y]]
-----------------------------------------------------------------------------
(* outcomes: ok or the errno e, the new state s and the result out *)
St == [kind |-> kind, data |-> data, mode |-> mode, names |-> names, ofd |-> ofd, fds |-> fds,
       tdata |-> tdata, toff |-> toff, closing |-> closing, fresh |-> fresh]
Fail(e) == [ok |-> FALSE, e |-> e, s |-> St, out |-> <<>>]
Good(s, out) == [ok |-> TRUE, e |-> 0, s |-> s, out |-> out]
Ofd(fd) == ofd[fds[fd].o]
File(fd) == Ofd(fd).f
(* descriptors whose file is in use through another descriptor that the transaction did not open are refused *)
Refused(fd) == fd \in DOMAIN fds /\ fd \notin used /\ \E g \in used \cap DOMAIN fds : File(g) = File(fd)
NextO == IF DOMAIN ofd = {} THEN 1 ELSE 1 + (CHOOSE x \in DOMAIN ofd : \A y \in DOMAIN ofd : y <= x)
(* fd: the descriptor that the call has returned; fid: the file, if it has been created *)
(* tr: the file is truncated, which happens at once and needs an irrevocable transaction *)
DoOpen(name, acc, cr, ex, app, ce, tr, m, fd, fid) ==
  LET exists == name \in DOMAIN names
      f == IF exists THEN names[name] ELSE fid
      s1 == IF exists THEN IF tr THEN [St EXCEPT !.data[f] = <<>>, !.tdata[f] = <<>>] ELSE St
            ELSE [St EXCEPT !.kind = Ext(kind, f, "f"), !.data = Ext(data, f, <<>>), !.tdata = Ext(tdata, f, <<>>),
                            !.mode = Ext(mode, f, m), !.names = Ext(names, name, f),
                            !.fresh = IF ex THEN fresh \cup {name} ELSE fresh]
  IN IF exists /\ cr /\ ex THEN Fail(EEXIST)
     ELSE IF ~exists /\ ~cr THEN Fail(ENOENT)
     ELSE IF exists /\ kind[f] = "d" /\ (cr \/ acc # "r") THEN Fail(EISDIR)
     ELSE Good([s1 EXCEPT !.ofd = Ext(ofd, NextO, [f |-> f, off |-> 0, acc |-> acc, app |-> app]),
                          !.toff = Ext(toff, NextO, 0), !.fds = Ext(fds, fd, [o |-> NextO, ce |-> ce])], fd)
DoPipe(fd, fd2, f) ==
  Good([St EXCEPT !.kind = Ext(kind, f, "p"), !.data = Ext(data, f, <<>>), !.tdata = Ext(tdata, f, <<>>), !.mode = Ext(mode, f, 384),
                  !.ofd = Ext(Ext(ofd, NextO, [f |-> f, off |-> 0, acc |-> "r", app |-> FALSE]), NextO + 1, [f |-> f, off |-> 0, acc |-> "w", app |-> FALSE]),
                  !.toff = Ext(Ext(toff, NextO, 0), NextO + 1, 0),
                  !.fds = Ext(Ext(fds, fd, [o |-> NextO, ce |-> FALSE]), fd2, [o |-> NextO + 1, ce |-> FALSE])], <<fd, fd2>>)
DoDup(old, start, ce, fd) ==
  IF start < 0 THEN Fail(EINVAL) ELSE Good([St EXCEPT !.fds = Ext(fds, fd, [o |-> fds[old].o, ce |-> ce])], fd)
DoClose(fd) == Good([St EXCEPT !.closing = closing \cup {fd}], 0)
CanRead(fd) == Ofd(fd).acc # "w"
CanWrite(fd) == Ofd(fd).acc # "r"
DoRead(fd, n) ==
  LET o == fds[fd].o  b == ReadAt(tdata[ofd[o].f], toff[o], n) IN
  IF ~CanRead(fd) THEN Fail(EBADF) ELSE IF kind[File(fd)] = "d" THEN Fail(EISDIR)
  ELSE Good([St EXCEPT !.toff = [toff EXCEPT ![o] = toff[o] + Len(b)]], b)
DoPread(fd, n, off) ==
  IF kind[File(fd)] = "p" THEN Fail(ESPIPE) ELSE IF off < 0 THEN Fail(IF kind[File(fd)] = "d" THEN EISDIR ELSE EINVAL)
  ELSE IF ~CanRead(fd) THEN Fail(EBADF) ELSE IF kind[File(fd)] = "d" THEN Fail(EISDIR)
  ELSE Good(St, ReadAt(tdata[File(fd)], off, n))
DoWrite(fd, b) ==
  LET o == fds[fd].o  f == File(fd)  at == IF ofd[o].app THEN Len(tdata[f]) ELSE toff[o] IN
  IF ~CanWrite(fd) THEN Fail(EBADF)
  ELSE Good([St EXCEPT !.tdata = [tdata EXCEPT ![f] = WriteAt(tdata[f], at, b)],
                       !.toff = [toff EXCEPT ![o] = IF b = <<>> THEN toff[o] ELSE at + Len(b)]], Len(b))
(* on Linux, pwrite() appends to files in append mode *)
DoPwrite(fd, b, off) ==
  LET f == File(fd)  at == IF Ofd(fd).app THEN Len(tdata[f]) ELSE off IN
  IF kind[f] = "p" THEN Fail(ESPIPE) ELSE IF kind[f] = "d" THEN Fail(EISDIR) ELSE IF off < 0 THEN Fail(EINVAL) ELSE IF ~CanWrite(fd) THEN Fail(EBADF)
  ELSE Good([St EXCEPT !.tdata = [tdata EXCEPT ![f] = WriteAt(tdata[f], at, b)]], Len(b))
DoLseek(fd, off, wh) ==
  LET o == fds[fd].o
      to == CASE wh = "set" -> off [] wh = "cur" -> toff[o] + off [] wh = "end" -> Len(tdata[ofd[o].f]) + off [] OTHER -> -1
  IN IF kind[File(fd)] = "p" THEN Fail(ESPIPE) ELSE IF kind[File(fd)] = "d" \/ to < 0 THEN Fail(EINVAL) ELSE Good([St EXCEPT !.toff = [toff EXCEPT ![o] = to]], to)
DoFstat(fd) == LET f == File(fd) IN
  Good(St, <<kind[f], mode[f], IF kind[f] = "f" THEN Len(tdata[f]) ELSE 0>>)
DoFchmod(fd, m) == Good([St EXCEPT !.mode = [mode EXCEPT ![File(fd)] = m]], 0)
DoGetfd(fd) == Good(St, IF fds[fd].ce THEN 1 ELSE 0)
DoSetfd(fd, v) == Good([St EXCEPT !.fds = [fds EXCEPT ![fd].ce = (v = 1)]], 0)
(* record locks: o is the request and the lock that another process holds *)
Overlap(s1, l1, s2, l2) == (l1 = 0 \/ s2 < s1 + l1) /\ (l2 = 0 \/ s1 < s2 + l2)
Conflict(o) == o.ct # "u" /\ (o.ct = "w" \/ o.t = "w") /\ o.t # "u" /\ Overlap(o.s, o.l, o.cs, o.cl)
DoGetlk(o) == Good(St, IF Conflict(o) THEN <<o.ct, o.cs, o.cl>> ELSE <<"u", o.s, o.l>>)
DoSetlk(o) ==
  IF (o.t = "r" /\ Ofd(o.fd).acc = "w") \/ (o.t = "w" /\ Ofd(o.fd).acc = "r") THEN Fail(EBADF)
  ELSE IF Conflict(o) THEN Fail(EAGAIN)
  ELSE Good(St, <<o.t, o.s, o.l>>)
DoGetfl(fd) == Good(St, <<Ofd(fd).acc, Ofd(fd).app>>)
-----------------------------------------------------------------------------
Empty == [x \in {} |-> 0]
Init == /\ kind = Empty /\ data = Empty /\ mode = Empty /\ names = Empty /\ ofd = Empty /\ fds = Empty
        /\ tdata = Empty /\ toff = Empty /\ closing = {} /\ used = {} /\ fresh = {}
        /\ saved = [fds |-> Empty, mode |-> Empty] /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle"
Keep == UNCHANGED <<fvars, saved, irr, pend, expect>>
(* nothing but the transaction's view may differ from what the others see *)
Offs == [o \in DOMAIN ofd |-> ofd[o].off]
Begin(i) == /\ phase \in {"idle", "undone", "restart"} /\ phase' = "exec"
            /\ saved' = [fds |-> fds, mode |-> mode] /\ irr' = i /\ expect' = 0
            /\ tdata' = data /\ toff' = Offs /\ closing' = {} /\ used' = {} /\ fresh' = {}
            /\ UNCHANGED <<kind, data, mode, names, ofd, fds, pend>>
Call(op) == phase = "exec" /\ pend' = op /\ phase' = "call" /\ UNCHANGED <<fvars, saved, irr, expect>>
Become(s) == /\ kind' = s.kind /\ data' = s.data /\ mode' = s.mode /\ names' = s.names /\ ofd' = s.ofd /\ fds' = s.fds
             /\ tdata' = s.tdata /\ toff' = s.toff /\ closing' = s.closing /\ fresh' = s.fresh
Ret(x, u) == /\ phase = "call" /\ x.ok /\ Become(x.s) /\ used' = used \cup u
             /\ saved' = [saved EXCEPT !.mode = [f \in DOMAIN x.s.mode |-> IF f \in DOMAIN saved.mode THEN saved.mode[f] ELSE x.s.mode[f]]]
             /\ pend' = None /\ phase' = "exec" /\ UNCHANGED <<irr, expect>>
(* the attempt is rolled back; e # 0: because an operation has failed *)
Live(F) == {F[fd].o : fd \in DOMAIN F}
Undo(e) == /\ phase \in {"call", "fail"} /\ phase' = "undo"
           /\ fds' = saved.fds
           /\ ofd' = Restrict(ofd, Live(saved.fds)) /\ tdata' = data /\ toff' = Restrict(Offs, Live(saved.fds))
           /\ mode' = saved.mode
           /\ names' = Restrict(names, DOMAIN names \ fresh)
           /\ closing' = {} /\ used' = {} /\ fresh' = {} /\ expect' = e /\ pend' = None
           /\ UNCHANGED <<kind, data, saved, irr>>
Stop == phase = "exec" /\ phase' = "fail" /\ Keep
Fault == phase = "commit" /\ phase' = "fail" /\ Keep
Commit == phase = "exec" /\ phase' = "commit" /\ Keep
Apply == /\ phase = "commit" /\ phase' = "apply"
         /\ data' = tdata /\ fds' = Restrict(fds, DOMAIN fds \ closing)
         /\ ofd' = [o \in DOMAIN ofd \cap Live(fds') |-> [ofd[o] EXCEPT !.off = toff[o]]]
         /\ toff' = Restrict(toff, DOMAIN ofd') /\ closing' = {} /\ used' = {} /\ fresh' = {}
         /\ UNCHANGED <<kind, mode, names, tdata, saved, irr, pend, expect>>
Finish == Keep /\ \/ phase = "apply" /\ phase' = "done"
                  \/ phase = "undo" /\ phase' = "undone"
Recover(e) == phase = "undone" /\ (expect \in {0, e}) /\ phase' = "recovery" /\ Keep
Restart == phase = "recovery" /\ phase' = "restart" /\ Keep
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ Keep
(* the program's own calls, between transactions *)
RClose(fd) == /\ phase = "idle" /\ fds' = Restrict(fds, DOMAIN fds \ {fd}) /\ ofd' = Restrict(ofd, Live(fds')) /\ toff' = Restrict(toff, Live(fds'))
              /\ UNCHANGED <<kind, data, mode, names, tdata, closing, used, fresh, saved, irr, pend, expect, phase>>
RUnlink(name) == /\ phase = "idle" /\ names' = Restrict(names, DOMAIN names \ {name})
                 /\ UNCHANGED <<kind, data, mode, ofd, fds, tdata, toff, closing, used, fresh, saved, irr, pend, expect, phase>>
ROpen(fd, name, acc, app) == /\ phase = "idle" /\ UNCHANGED <<used, saved, irr, pend, expect, phase>>
                             /\ Become(DoOpen(name, acc, FALSE, FALSE, app, FALSE, FALSE, 0, fd, 0).s)
RDup(old, fd) == phase = "idle" /\ UNCHANGED <<used, saved, irr, pend, expect, phase>> /\ Become(DoDup(old, 0, FALSE, fd).s)
=============================================================================
