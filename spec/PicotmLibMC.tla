----------------------------- MODULE PicotmLibMC -----------------------------
(* picotm-lib's implementation of lists and tables: rings of next pointers that start at a
   head, and blocks of memory whose size is a power of two until memory runs short. Every step must be
   the step of PicotmLib that was asked for. *)
EXTENDS PicotmLib, TLC
CONSTANTS Keys, MaxElems, Vals
VARIABLES nxt,  \* next pointer of heads (-h) and items; 0 is none
          mem,  \* the table's block: a sequence of elements; undefined ones are Undef
          tn,   \* number of elements
          low,  \* memory was short once
          op    \* what was asked for, and its results
mvars == <<vars, nxt, mem, tn, low, op>>
Undef == 99
Heads == {-h : h \in Lists}
RECURSIVE Chain(_, _, _)
Chain(nx, h, x) == IF x = -h THEN <<>> ELSE <<x>> \o Chain(nx, h, nx[x])
Abs(nx) == [h \in Lists |-> Chain(nx, h, nx[-h])]
RECURSIVE PrevFrom(_, _, _)
PrevFrom(nx, x, p) == IF nx[p] = x THEN p ELSE PrevFrom(nx, x, nx[p])
PrevOf(nx, x) == PrevFrom(nx, x, x)
InsAfter(nx, y, x) == [nx EXCEPT ![x] = nx[y], ![y] = x]
InsBefore(nx, y, x) == LET p == PrevOf(nx, y) IN [nx EXCEPT ![x] = y, ![p] = x]
RECURSIVE Slot(_, _, _, _)  \* the node that a new item follows in a sorted list
Slot(nx, h, x, prev) == LET i == nx[prev] IN IF i = -h \/ key[x] > key[i] THEN prev ELSE Slot(nx, h, x, i)
Del(nx, x) == LET p == PrevOf(nx, x) IN [nx EXCEPT ![p] = nx[x], ![x] = 0]
RECURSIVE Step(_, _, _)
Step(h, x, n) == IF n = 0 \/ x = -h THEN x ELSE Step(h, nxt[x], n - 1)
RECURSIVE IWalk(_, _, _, _, _)
IWalk(h, f, x, seen, inc) ==
  IF x = -h THEN <<seen, inc, x>>
  ELSE IF f[x] = 0 THEN <<Append(seen, x), Append(inc, 0), x>>
  ELSE IWalk(h, f, Step(h, x, f[x]), Append(seen, x), Append(inc, f[x]))
RECURSIVE IFind(_, _, _, _)
IFind(h, k, x, seen) == IF x = -h THEN <<seen, x>> ELSE IF key[x] = k THEN <<Append(seen, x), x>> ELSE IFind(h, k, nxt[x], Append(seen, x))

Set(nx, o) == nxt' = nx /\ q' = Abs(nx) /\ op' = o /\ UNCHANGED <<key, tab, er, ref, mem, tn, low>>
Enq(x) == nxt[x] # 0
ListOp ==
  \/ \E x \in Items, h \in Lists : ~Enq(x) /\ Set(InsAfter(nxt, -h, x), <<"front", h, x>>)
  \/ \E x \in Items, h \in Lists : ~Enq(x) /\ Set(InsBefore(nxt, -h, x), <<"back", h, x>>)
  \/ \E x, y \in Items : ~Enq(x) /\ Enq(y) /\ Set(InsBefore(nxt, y, x), <<"before", x, y>>)
  \/ \E x, y \in Items : ~Enq(x) /\ Enq(y) /\ Set(InsAfter(nxt, y, x), <<"after", x, y>>)
  \/ \E x \in Items, h \in Lists : /\ ~Enq(x) /\ Descending(q[h])
                                   /\ Set(InsAfter(nxt, Slot(nxt, h, x, -h), x), <<"sorted", h, x>>)
  \/ \E x \in Items : Enq(x) /\ Set(Del(nxt, x), <<"dequeue", x>>)
  \/ \E h \in Lists : nxt[-h] # -h /\ Set([nxt EXCEPT ![-h] = nxt[nxt[-h]], ![nxt[-h]] = 0], <<"dequeuefront", h>>)
  \/ \E h \in Lists, f \in [Items -> 0..2] : Set(nxt, <<"walk", h, IWalk(h, f, nxt[-h], <<>>, <<>>)>>)
  \/ \E h \in Lists, k \in Keys : Set(nxt, <<"find", h, k, IFind(h, k, nxt[-h], <<>>)>>)

(* rounded up to a power of two, with 0 for 0 *)
RndPow2(n) == IF n = 0 THEN 0 ELSE CHOOSE p \in {2^i : i \in 0..4} : p >= n /\ \A i \in 0..4 : 2^i >= n => p <= 2^i
Realloc(c) == [i \in 1..c |-> IF i <= Len(mem) THEN mem[i] ELSE Undef]
Elems(m, n) == SubSeq(m, 1, n)
Table(m, n, o) == mem' = m /\ tn' = n /\ tab' = [i \in 1..n |-> m[i]] /\ op' = o /\ UNCHANGED <<key, q, er, ref, nxt>>
(* the outcome of each attempt to get memory is open *)
Keep(m, n) == Elems(m, Min(n, tn))
TabOp ==
  \/ \E n \in 0..MaxElems, ok1, ok2 \in BOOLEAN :
       LET pow == RndPow2(n)
           need1 == RndPow2(tn) # pow
           fail1 == ~low /\ need1 /\ pow > 0 /\ ~ok1
           second == low \/ fail1
           fail2 == second /\ n > 0 /\ ~ok2
           m == IF second THEN Realloc(n) ELSE IF need1 THEN Realloc(pow) ELSE mem
           failed == (IF fail1 THEN 1 ELSE 0) + (IF fail2 THEN 1 ELSE 0) IN
       /\ low' = (low \/ fail1)
       /\ IF fail2 THEN Table(mem, tn, <<"resize", n, 0, 1, failed, 1, 0, Elems(mem, tn)>>)
          ELSE Table([i \in 1..Len(m) |-> IF i > tn /\ i <= n THEN 0 ELSE m[i]], n,
                     <<"resize", n, 1, 0, failed, IF Len(m) = 0 THEN 1 ELSE 0, Len(m), Keep(m, n)>>)
  \/ \E i \in 1..tn, v \in Vals : low' = low /\ Table([mem EXCEPT ![i] = v], tn, <<"fill">>)


(* reverse walks: addresses wrap around *)
Wrap == 64
Base == IF mem = <<>> THEN 0 ELSE 8
RECURSIVE IRWalk(_, _, _, _, _)
IRWalk(e, beg, k, seen, errat) ==
  IF e < beg THEN <<seen, 0>>
  ELSE LET s == Append(seen, IF e >= Base THEN 1 + (e - Base) \div 2 ELSE 0) IN
       IF Len(s) = errat THEN <<s, 1>>
       ELSE IRWalk((e + Wrap - 2 * k) % Wrap, beg, k, s, errat)
RWalk(errat) == IF tn = 0 THEN <<<<>>, 0>> ELSE IRWalk((Base + 2 * tn + Wrap - 2) % Wrap, Base, 1, <<>>, errat)
WalkOp == \E errat \in 0..MaxElems : op' = <<"rwalk", errat, RWalk(errat)>> /\ UNCHANGED <<vars, nxt, mem, tn, low>>

MInit == /\ q = [h \in Lists |-> <<>>] /\ tab = <<>> /\ er = NoError /\ ref = <<2, 1>>
         /\ key \in [Items -> Keys]
         /\ nxt = [x \in Items \cup Heads |-> IF x \in Heads THEN x ELSE 0]
         /\ mem = <<>> /\ tn = 0 /\ low = FALSE /\ op = <<"init">>
ListSpec == MInit /\ [][ListOp]_mvars
TabSpec == MInit /\ [][TabOp \/ WalkOp]_mvars

Ones(n) == [i \in 1..n |-> 1]
Asked ==
  LET o == op' IN
  CASE o[1] = "front" -> Front(o[2], o[3])
    [] o[1] = "back" -> Back(o[2], o[3])
    [] o[1] = "before" -> Before(o[2], o[3])
    [] o[1] = "after" -> After(o[2], o[3])
    [] o[1] = "sorted" -> Sorted(o[2], o[3])
    [] o[1] = "dequeue" -> Dequeue(o[2])
    [] o[1] = "dequeuefront" -> DequeueFront(o[2])
    [] o[1] = "walk" -> Walk(o[2], o[3][1], o[3][2], o[3][3])
    [] o[1] = "find" -> Find(o[2], o[3], o[4][1], o[4][2])
    [] o[1] = "resize" -> /\ (o[4] = 0) = (o[3] = 1)
                          /\ o[3] = 1 => (o[2] > 0 => o[6] = 0 /\ o[7] >= o[2]) /\ o[8] = SubSeq(tab, 1, Min(o[2], Len(tab)))
                          /\ o[3] = 0 => o[8] = tab /\ tab' = tab /\ o[5] > 0
    [] o[1] = "rwalk" -> TWalk(TRUE, o[3][1], Ones(Len(o[3][1])), o[2], o[3][2],
                               IF o[3][2] = 1 THEN Len(o[3][1]) - 1 ELSE Len(o[3][1]))
    [] OTHER -> TRUE
Refines == [][Asked]_mvars
Fits == tn <= Len(mem) /\ \A i \in 1..tn : mem[i] # Undef
Linked == \A x \in Items : Enq(x) = ~Free(x) /\ (Enq(x) => PrevOf(nxt, x) = Prev(x))
=============================================================================
