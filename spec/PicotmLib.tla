------------------------------ MODULE PicotmLib ------------------------------
(* Building blocks that picotm-lib offers to modules: singly-linked lists,
   tables, error values, reference counters and address arithmetic.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Items, Lists
VARIABLES key,   \* key of each item, for sorted lists
          q,     \* the items of each list, from front to back
          tab,   \* the elements of a table
          er,    \* an error value: status, value, whether non-recoverable, description
          ref    \* two reference counters
vars == <<key, q, tab, er, ref>>
Must(p) == p = TRUE

(* ---- lists: an item is in at most one list, at most once ---- *)
In(h, x) == \E i \in 1..Len(q[h]) : q[h][i] = x
Free(x) == \A h \in Lists : ~In(h, x)
Pos(h, x) == CHOOSE i \in 1..Len(q[h]) : q[h][i] = x
Home(x) == CHOOSE h \in Lists : In(h, x)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* x becomes the ith
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(h, i, x) == /\ Free(x) /\ q' = [q EXCEPT ![h] = InsertAt(@, i, x)]
                   /\ UNCHANGED <<key, tab, er, ref>>
Front(h, x) == Insert(h, 1, x)
Back(h, x) == Insert(h, Len(q[h]) + 1, x)
Before(x, y) == ~Free(y) /\ Insert(Home(y), Pos(Home(y), y), x)
After(x, y) == ~Free(y) /\ Insert(Home(y), Pos(Home(y), y) + 1, x)
Descending(s) == \A i \in 1..Len(s) - 1 : key[s[i]] >= key[s[i + 1]]
Sorted(h, x) == \E i \in 1..Len(q[h]) + 1 : Descending(InsertAt(q[h], i, x)) /\ Insert(h, i, x)
Dequeue(x) == /\ ~Free(x) /\ q' = [q EXCEPT ![Home(x)] = Without(@, Pos(Home(x), x))]
              /\ UNCHANGED <<key, tab, er, ref>>
DequeueFront(h) == q[h] # <<>> /\ Dequeue(q[h][1])
Cleanup(h, seen) == /\ Must(seen = q[h]) /\ q' = [q EXCEPT ![h] = <<>>]
                    /\ UNCHANGED <<key, tab, er, ref>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
At(inc, j) == 1 + Sum(SubSeq(inc, 1, j - 1))  \* position of the jth call of a walk
(* a walk calls the function for an item, advances by as many items as the function returns, and
   stops at 0 or at the end of the list *)
Walk(h, seen, inc, r) ==
  LET n == Len(seen) IN
  /\ Must(\A j \in 1..n : At(inc, j) <= Len(q[h]) /\ seen[j] = q[h][At(inc, j)] /\ (j < n => inc[j] # 0))
  /\ Must(IF n > 0 /\ inc[n] = 0 THEN r = seen[n] ELSE At(inc, n + 1) > Len(q[h]) /\ r = -h)
  /\ UNCHANGED vars
Find(h, k, seen, r) ==
  LET hit == {i \in 1..Len(q[h]) : key[q[h][i]] = k}
      m == CHOOSE i \in hit : \A j \in hit : i <= j IN
  /\ Must(IF hit = {} THEN seen = q[h] /\ r = -h ELSE seen = SubSeq(q[h], 1, m) /\ r = q[h][m])
  /\ UNCHANGED vars
(* what can be seen of the lists; -h is the head of list h, and 0 is nothing *)
Prev(x) == IF Free(x) THEN 0 ELSE LET h == Home(x) IN IF Pos(h, x) = 1 THEN -h ELSE q[h][Pos(h, x) - 1]
End1(h) == IF q[h] = <<>> THEN 0 ELSE q[h][1]
End2(h) == IF q[h] = <<>> THEN 0 ELSE q[h][Len(q[h])]
EndAll == q' = [h \in Lists |-> <<>>] /\ UNCHANGED <<key, tab, er, ref>>

(* ---- tables ---- *)
Min(a, b) == IF a < b THEN a ELSE b
(* The elements that fit stay. The operation fails only if memory is short, and then changes nothing. *)
Resize(n, siz, ok, err, failed, null, bytes, keep) ==
  /\ Must(failed = 0 => ok = 1)
  /\ Must((ok = 0) = (err = 1))
  /\ IF ok = 1
     THEN /\ Must(n > 0 => null = 0 /\ bytes >= n * siz)
          /\ Must(keep = SubSeq(tab, 1, Min(n, Len(tab))))
     ELSE Must(keep = tab)
  /\ UNCHANGED vars
Fill(v) == tab' = v /\ UNCHANGED <<key, q, er, ref>>
TWalk(rev, seen, inc, errat, err, r) ==
  LET n == Len(seen) pos(j) == IF rev THEN Len(tab) + 1 - At(inc, j) ELSE At(inc, j) IN
  /\ Must(\A j \in 1..n : pos(j) \in 1..Len(tab) /\ seen[j] = pos(j))
  /\ Must(errat > 0 => n <= errat)
  /\ Must(err = (IF errat > 0 /\ n = errat THEN 1 ELSE 0))
  /\ Must(IF err = 1 THEN r = At(inc, n) - 1 ELSE r = Len(tab) /\ At(inc, n + 1) = Len(tab) + 1)
  /\ UNCHANGED vars
(* keeps one of each sequence of equal elements *)
RECURSIVE Uniq(_)
Uniq(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Uniq(Tail(s)) ELSE <<s[1]>> \o Uniq(Tail(s))
DoUniq(r, v) == Must(v = Uniq(tab) /\ r = Len(v)) /\ UNCHANGED vars

(* ---- errors ---- *)
NoError == [st |-> 0, v |-> 0, nr |-> 0, d |-> 0]
SetEr(e) == er' = e /\ UNCHANGED <<key, q, tab, ref>>
ESet(st, v) == SetEr([st |-> st, v |-> v, nr |-> 0, d |-> 0])
EMark == SetEr([er EXCEPT !.nr = 1])
EDesc(d) == SetEr([er EXCEPT !.d = d])
EClear == SetEr(NoError)
Conflicting == 1
ELook(st, v, nr, d, set, conf, rev, iserr) ==
  /\ Must(st = er.st /\ nr = er.nr /\ d = er.d)
  /\ Must(er.st \in {1, 3, 4, 6} => v = er.v)
  /\ Must(set = (IF st # 0 THEN 1 ELSE 0))
  /\ Must(conf = (IF st = 1 THEN 1 ELSE 0))
  /\ Must(rev = (IF st = 2 THEN 1 ELSE 0))
  /\ Must(iserr = (IF st \notin {0, 1} THEN 1 ELSE 0))
  /\ UNCHANGED vars

(* ---- references ---- *)
SetRef(k, n) == ref' = [ref EXCEPT ![k] = n] /\ UNCHANGED <<key, q, tab, er>>
RUp(k, r) == Must(r = (IF ref[k] = 0 THEN 1 ELSE 0)) /\ SetRef(k, ref[k] + 1)
RDown(k, r) == ref[k] > 0 /\ Must(r = (IF ref[k] = 1 THEN 1 ELSE 0)) /\ SetRef(k, ref[k] - 1)
RCount(k, n) == Must(n = ref[k]) /\ UNCHANGED vars

(* ---- addresses, relative to one that has every alignment ---- *)
Addr(a, al, floor, ceil, pfloor, pceil, b, diff) ==
  /\ Must(floor % al = 0 /\ floor <= a /\ a - floor < al)
  /\ Must(ceil % al = 0 /\ ceil >= a /\ ceil - a < al)
  /\ Must(pfloor = floor /\ pceil = ceil /\ diff = b - a)
  /\ UNCHANGED vars

Init == /\ key = [x \in Items |-> 0] /\ q = [h \in Lists |-> <<>>] /\ tab = <<>>
        /\ er = NoError /\ ref = <<2, 1>>
Once == \A h \in Lists : /\ \A i, j \in 1..Len(q[h]) : q[h][i] = q[h][j] => i = j
                         /\ \A g \in Lists \ {h} : \A x \in Items : ~(In(h, x) /\ In(g, x))
=============================================================================
