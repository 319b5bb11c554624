---------------------------- MODULE TxStringMC ----------------------------
(* Model of TxString over a tiny region: every legal call of the functions   *)
(* that write, from every content. A call changes only the bytes that the    *)
(* plain function is defined to write; strings it makes are terminated;      *)
(* rollback and commit are all-or-nothing.                                   *)
EXTENDS TxString
CONSTANT Bytes
VARIABLES start, calls
A == 0 .. N - 1
Term(p) == p < N /\ Z(view, p) # NULL
Disj(p, n, q, m) == p + n <= q \/ q + m <= p \/ n = 0 \/ m = 0
Cs == Bytes
MInit == /\ \E m \in [A -> Bytes] : Init0(m) /\ start = m
         /\ calls = 0
(* <<function, arguments, first written byte, number of bytes that may be written>> *)
Writes ==
  {<<"memset", <<p, c, n>>, p, n>> : p \in A, c \in Cs, n \in {k \in 0 .. N : k <= N}} \cup
  {<<"memmove", <<p, q, n>>, p, n>> : p \in A, q \in A, n \in 0 .. N} \cup
  {<<"memccpy", <<p, q, c, n>>, p, n>> : p \in A, q \in A, c \in Cs, n \in 0 .. N} \cup
  {<<f, <<p, q>>, p, N - p>> : f \in {"strcpy", "stpcpy", "strcat"}, p \in A, q \in A} \cup
  {<<f, <<p, q, n>>, p, N - p>> : f \in {"strncpy", "stpncpy", "strncat"}, p \in A, q \in A, n \in 0 .. N} \cup
  {<<"strtok_r", <<p, q>>, IF p = NULL THEN 0 ELSE p, N>> : p \in A \cup {NULL}, q \in A} \cup
  {<<"qsort", <<p, n>>, p, n>> : p \in A, n \in 0 .. N}
LegalW(w) ==
  LET f == w[1]
      a == w[2]
  IN CASE f \in {"memset"} -> a[1] + a[3] <= N
       [] f = "memmove" -> a[1] + a[3] <= N /\ a[2] + a[3] <= N
       [] f = "memccpy" -> a[1] + a[4] <= N /\ a[2] + a[4] <= N /\ Disj(a[1], a[4], a[2], a[4])
       [] f \in {"strcpy", "stpcpy"} -> Term(a[2]) /\ a[1] + StrLen(view, a[2]) < N /\ Disj(a[1], StrLen(view, a[2]) + 1, a[2], StrLen(view, a[2]) + 1)
       [] f = "strcat" -> Term(a[1]) /\ Term(a[2]) /\ Z(view, a[1]) + StrLen(view, a[2]) < N /\ Disj(a[1], StrLen(view, a[1]) + StrLen(view, a[2]) + 1, a[2], StrLen(view, a[2]) + 1)
       [] f \in {"strncpy", "stpncpy"} -> a[1] + a[3] <= N /\ (Term(a[2]) \/ a[2] + a[3] <= N) /\ Disj(a[1], a[3], a[2], NLen(view, a[2], a[3]) + 1)
       [] f = "strncat" -> Term(a[1]) /\ (Term(a[2]) \/ a[2] + a[3] <= N) /\ Z(view, a[1]) + NLen(view, a[2], a[3]) < N
                           /\ Disj(a[1], StrLen(view, a[1]) + NLen(view, a[2], a[3]) + 1, a[2], NLen(view, a[2], a[3]) + 1)
       [] f = "strtok_r" -> Term(a[2]) /\ IF a[1] = NULL THEN save # NULL /\ Term(save) /\ Disj(save, StrLen(view, save) + 1, a[2], StrLen(view, a[2]) + 1)
                                          ELSE Term(a[1]) /\ Disj(a[1], StrLen(view, a[1]) + 1, a[2], StrLen(view, a[2]) + 1)
       [] f = "qsort" -> a[1] + a[2] <= N
DoCall(w) == LET x == Apply1(w[1], w[2], <<>>) IN Call(w[1], w[2], <<>>, x.r, x.bytes)
MNext == \/ Begin /\ start' = mem /\ UNCHANGED calls
         \/ calls < 2 /\ calls' = calls + 1 /\ UNCHANGED start /\ \E w \in Writes : LegalW(w) /\ DoCall(w)
         \/ (Fail \/ Commit \/ Apply \/ Undo \/ Finish \/ Recover) /\ UNCHANGED <<start, calls>>
MSpec == MInit /\ [][MNext]_<<vars, start, calls>>
InRegion == DOMAIN view = A /\ DOMAIN mem = A
Restored == (phase \in {"undone", "recovery", "undo"}) => (mem = start /\ view = start)
Private == (phase \in {"exec", "commit", "fail"}) => (mem = start)
(* every legal call writes only to its own footprint, and strings it builds are what the words say *)
Footprint == (phase = "exec") =>
  \A w \in Writes : LegalW(w) =>
    LET x == Apply1(w[1], w[2], <<>>)
        f == w[1]
        a == w[2]
    IN /\ DOMAIN x.m = A
       /\ \A i \in A : (i < w[3] \/ i >= w[3] + w[4]) => x.m[i] = view[i]
       /\ (f \in {"strcpy", "stpcpy"}) => (Str(x.m, a[1]) = Str(view, a[2]))
       /\ (f = "stpcpy") => (x.m[x.r] = 0 /\ x.r = Z(x.m, a[1]))
       /\ (f = "strcat") => (Str(x.m, a[1]) = Str(view, a[1]) \o Str(view, a[2]))
       /\ (f = "strncat") => (Str(x.m, a[1]) = Str(view, a[1]) \o NStr(view, a[2], a[3]))
       /\ (f \in {"strncpy", "stpncpy"}) => (NStr(x.m, a[1], a[3]) = NStr(view, a[2], a[3]))
       /\ (f = "memmove") => (Read(x.m, a[1], a[3]) = Read(view, a[2], a[3]))
       /\ (f = "strtok_r" /\ x.r # NULL) => (Str(x.m, x.r) # <<>> /\ SetOf(Str(x.m, x.r)) \cap SetOf(Str(view, a[2])) = {})
       /\ (f = "qsort") => (\A i \in a[1] .. a[1] + a[2] - 2 : x.m[i] <= x.m[i + 1])
=============================================================================
