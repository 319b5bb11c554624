-------------------------------- MODULE TxFs --------------------------------
(* Path operations and the working directory in transactions.                 *)
(* A small POSIX name space: names maps paths (sequences of components below  *)
(* the scratch root) to nodes; a node is a directory "d", regular file "f",   *)
(* FIFO "p" or symbolic link "l". Operations by path take effect immediately  *)
(* and atomically; the working directory, exclusively created files and       *)
(* temporary files follow the transaction.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES names,  \* path -> node number
          node,   \* node number -> [k, m, z, t]: kind, mode, size, link target
          cwd,    \* working directory, as a path
          cwd0,   \* the one from before the current attempt
          fresh,  \* nodes to be removed if the attempt does not commit: <<path, node>>
          fds,    \* descriptors that are open
          fds0,
          held,   \* getcwd() buffers that the program owns
          held0,
          irr,    \* the attempt is irrevocable
          pend,   \* operation that has been called
          expect, \* its outcome: [r: 0 or -1, ..., e: errno]
          phase
vars == <<names, node, cwd, cwd0, fresh, fds, fds0, held, held0, irr, pend, expect, phase>>
Must(p) == p = TRUE
EPERM == 1  ENOENT == 2  EBADF == 9  EEXIST == 17  ENOTDIR == 20  EISDIR == 21  EINVAL == 22  ERANGE == 34  ELOOP == 40
Err(e) == [ok |-> FALSE, miss |-> FALSE, p |-> <<>>, e |-> e]
Miss(p) == [ok |-> FALSE, miss |-> TRUE, p |-> p, e |-> ENOENT]
Found(p) == [ok |-> TRUE, miss |-> FALSE, p |-> p, e |-> 0]
Front1(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
(* resolve the components cs from the existing path at; follow: also a symbolic link at the end *)
RECURSIVE Walk(_, _, _, _)
Walk(at, cs, follow, fuel) ==
  IF cs = <<>> THEN Found(at)
  ELSE IF node[names[at]].k # "d" THEN Err(ENOTDIR)
  ELSE LET c == Head(cs)  rest == Tail(cs) IN
       IF c = "." THEN Walk(at, rest, follow, fuel)
       ELSE IF c = ".." THEN Walk(Front1(at), rest, follow, fuel)
       ELSE LET q == Append(at, c) IN
            IF q \notin DOMAIN names THEN (IF rest = <<>> THEN Miss(q) ELSE Err(ENOENT))
            ELSE IF node[names[q]].k = "l" /\ (rest # <<>> \/ follow)
                 THEN (IF fuel = 0 THEN Err(ELOOP) ELSE Walk(at, node[names[q]].t \o rest, follow, fuel - 1))
                 ELSE Walk(q, rest, follow, fuel)
(* a path argument: absolute (below the scratch root) or relative to the working directory; empty paths do not exist *)
Look2(abs, cs, follow) == IF cs = <<>> /\ ~abs THEN Err(ENOENT) ELSE Walk(IF abs THEN <<>> ELSE cwd, cs, follow, 40)
NLink(n) == Cardinality({q \in DOMAIN names : names[q] = n})
Kind(r) == node[names[r.p]].k
Fail(e) == [r |-> -1, e |-> e, names |-> names, node |-> node, cwd |-> cwd, fresh |-> fresh, nfd |-> 0, buf |-> 0, out |-> <<>>]
Done(nm, nd) == [r |-> 0, e |-> 0, names |-> nm, node |-> nd, cwd |-> cwd, fresh |-> fresh, nfd |-> 0, buf |-> 0, out |-> <<>>]
Same == Done(names, node)
NewNode == 1 + (CHOOSE n \in DOMAIN node : \A m \in DOMAIN node : m <= n)
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Create(p, k, m) == Done(Ext(names, p, NewNode), Ext(node, NewNode, [k |-> k, m |-> m, z |-> 0, t |-> <<>>]))
StatOf(p) == LET n == names[p] IN
             [k |-> node[n].k, m |-> node[n].m, z |-> node[n].z, n |-> IF node[n].k = "d" THEN 0 ELSE NLink(n)]
(* the outcome of each operation in the current state *)
DoChdir(abs, cs) == LET r == Look2(abs, cs, TRUE) IN
  IF ~r.ok THEN Fail(r.e) ELSE IF Kind(r) # "d" THEN Fail(ENOTDIR) ELSE [Same EXCEPT !.cwd = r.p]
(* k: the descriptor refers to the directory p (0, 1), to a file (2), to nothing (3) *)
DoFchdir(k, p) == IF k = 3 THEN Fail(EBADF) ELSE IF k = 2 THEN Fail(ENOTDIR) ELSE [Same EXCEPT !.cwd = p]
(* size of the buffer; 0 with a null buffer: the function allocates what it needs *)
DoGetcwd(size, null, rootlen) ==
  LET need == rootlen + 2 * Len(cwd) + 1 IN
  IF ~null /\ size = 0 THEN Fail(EINVAL)
  ELSE IF (~null \/ size # 0) /\ size < need THEN Fail(ERANGE)
  ELSE [Same EXCEPT !.out = cwd, !.buf = IF null THEN 1 ELSE 0]
DoStat(abs, cs, follow) == LET r == Look2(abs, cs, follow) IN
  IF ~r.ok THEN Fail(r.e) ELSE [Same EXCEPT !.out = StatOf(r.p)]
DoChmod(abs, cs, m) == LET r == Look2(abs, cs, TRUE) IN
  IF ~r.ok THEN Fail(r.e) ELSE Done(names, [node EXCEPT ![names[r.p]].m = m])
DoMk(abs, cs, k, m) == LET r == Look2(abs, cs, FALSE) IN
  IF r.ok THEN Fail(EEXIST) ELSE IF ~r.miss THEN Fail(r.e) ELSE Create(r.p, k, m)
DoLink(abs, cs, abs2, cs2) ==
  LET r == Look2(abs, cs, TRUE)  s == Look2(abs2, cs2, FALSE) IN
  IF ~r.ok THEN Fail(r.e) ELSE IF s.ok THEN Fail(EEXIST) ELSE IF ~s.miss THEN Fail(s.e)
  ELSE IF Kind(r) = "d" THEN Fail(EPERM) ELSE Done(Ext(names, s.p, names[r.p]), node)
DoUnlink(abs, cs) == LET r == Look2(abs, cs, FALSE) IN
  IF ~r.ok THEN Fail(r.e) ELSE IF Kind(r) = "d" THEN Fail(EISDIR)
  ELSE Done([q \in DOMAIN names \ {r.p} |-> names[q]], node)
(* cr, ex, tr: O_CREAT, O_EXCL, O_TRUNC; wr: open for writing *)
DoOpen(abs, cs, cr, ex, tr, wr, m) ==
  LET r == Look2(abs, cs, ~(cr /\ ex)) IN
  IF r.ok THEN
    IF cr /\ ex THEN Fail(EEXIST)
    ELSE IF Kind(r) = "d" /\ (cr \/ wr) THEN Fail(EISDIR)
    ELSE [Same EXCEPT !.nfd = 1, !.node = IF tr /\ Kind(r) = "f" THEN [node EXCEPT ![names[r.p]].z = 0] ELSE node]
  ELSE IF r.miss /\ cr THEN [Create(r.p, "f", m) EXCEPT !.nfd = 1, !.fresh = IF ex THEN fresh \cup {<<r.p, NewNode>>} ELSE fresh]
  ELSE Fail(r.e)
(* name: what the template became *)
DoMkstemp(abs, dir, name) ==
  LET d == Look2(abs, Append(dir, "?"), FALSE) IN
  IF ~d.miss THEN Fail(d.e)
  ELSE LET p == Append(Front1(d.p), name) IN
       [Create(p, "f", 384) EXCEPT !.nfd = 1, !.fresh = fresh \cup {<<p, NewNode>>}]
-----------------------------------------------------------------------------
None == [n |-> "none"]
Init == /\ names = [x \in {<<>>} |-> 1] /\ node = [x \in {1} |-> [k |-> "d", m |-> 448, z |-> 0, t |-> <<>>]]
        /\ cwd = <<>> /\ cwd0 = <<>> /\ fresh = {} /\ fds = 0 /\ fds0 = 0 /\ held = 0 /\ held0 = 0
        /\ irr = FALSE /\ pend = None /\ expect = 0 /\ phase = "idle"
Keep == UNCHANGED <<names, node, cwd, cwd0, fresh, fds, fds0, held, held0, irr, pend, expect>>
Begin(i) == /\ phase \in {"idle", "undone", "restart"}
            /\ cwd0' = cwd /\ fds0' = fds /\ held0' = held /\ fresh' = {} /\ irr' = i /\ expect' = 0 /\ phase' = "exec"
            /\ UNCHANGED <<names, node, cwd, fds, held, pend>>
Call(op) == phase = "exec" /\ pend' = op /\ phase' = "call"
            /\ UNCHANGED <<names, node, cwd, cwd0, fresh, fds, fds0, held, held0, irr, expect>>
(* the operation has had the outcome x, with success *)
Ret(x) == /\ phase = "call" /\ x.r = 0
          /\ names' = x.names /\ node' = x.node /\ cwd' = x.cwd /\ fresh' = x.fresh /\ fds' = fds + x.nfd /\ held' = held + x.buf
          /\ pend' = None /\ phase' = "exec" /\ UNCHANGED <<cwd0, fds0, held0, irr, expect>>
(* the attempt is rolled back; e # 0: because an operation has failed *)
Undo(e) == /\ phase \in {"call", "fail"}
           /\ cwd' = cwd0 /\ fds' = fds0 /\ held' = held0
           /\ names' = [q \in {q \in DOMAIN names : <<q, names[q]>> \notin fresh} |-> names[q]]
           /\ fresh' = {} /\ expect' = e /\ pend' = None /\ phase' = "undo"
           /\ UNCHANGED <<node, cwd0, fds0, held0, irr>>
Stop == phase = "exec" /\ phase' = "fail" /\ Keep
Fault == phase = "commit" /\ phase' = "fail" /\ Keep
Commit == phase = "exec" /\ phase' = "commit" /\ Keep
Apply == phase = "commit" /\ phase' = "apply" /\ fresh' = {} /\ UNCHANGED <<names, node, cwd, cwd0, fds, fds0, held, held0, irr, pend, expect>>
Finish == Keep /\ \/ phase = "apply" /\ phase' = "done"
                  \/ phase = "undo" /\ phase' = "undone"
Recover(e) == phase = "undone" /\ (expect = 0 \/ expect = e) /\ phase' = "recovery" /\ Keep
Restart == phase = "recovery" /\ phase' = "restart" /\ Keep
End == phase \in {"done", "recovery"} /\ phase' = "idle" /\ Keep
(* the program gives back what committed transactions have left to it *)
Drop(nfd, nbuf) == phase = "idle" /\ fds' = fds - nfd /\ held' = held - nbuf
                   /\ UNCHANGED <<names, node, cwd, cwd0, fresh, fds0, held0, irr, pend, expect, phase>>
=============================================================================
