------------------------------ MODULE TxString ------------------------------
(* C string and memory functions on a shared region of bytes. Each function is *)
(* a transformer of the transaction's view of the region; the view becomes the *)
(* memory on commit and is forgotten on rollback. Addresses are 0 .. N-1, NULL *)
(* is -1; bytes are 0 .. 255, `c' arguments any integer.                       *)
EXTENDS Integers, Sequences, TLC
VARIABLES mem,    \* the region as seen outside of transactions
          view,   \* the region as seen by the transaction
          msave, save,  \* the saved position of strtok_r(), outside and inside
          phase   \* idle, exec, commit, apply, fail, undo, undone, done, recovery, restart
vars == <<mem, view, msave, save, phase>>
Must(p) == p = TRUE
NULL == -1

Byte(c) == (c + 1024) % 256
RECURSIVE First(_, _, _, _)
First(m, i, hi, S) == IF i > hi THEN NULL ELSE IF m[i] \in S THEN i ELSE First(m, i + 1, hi, S)
RECURSIVE Last(_, _, _, _)
Last(m, lo, i, S) == IF i < lo THEN NULL ELSE IF m[i] \in S THEN i ELSE Last(m, lo, i - 1, S)
RECURSIVE FirstNot(_, _, _, _)
FirstNot(m, i, hi, S) == IF i > hi THEN NULL ELSE IF m[i] \notin S THEN i ELSE FirstNot(m, i + 1, hi, S)
Read(m, p, n) == [k \in 1 .. n |-> m[p + k - 1]]
Write(m, p, s) == IF s = <<>> THEN m ELSE [i \in DOMAIN m |-> IF i >= p /\ i < p + Len(s) THEN s[i - p + 1] ELSE m[i]]
Fill(n, b) == [k \in 1 .. n |-> b]
CONSTANT N
Z(m, p) == First(m, p, N - 1, {0})               \* address of the terminator
StrLen(m, p) == Z(m, p) - p
Str(m, p) == Read(m, p, StrLen(m, p))
Min(a, b) == IF a < b THEN a ELSE b
(* at most n characters of a string that does not need to be terminated within them *)
NLen(m, p, n) == IF n = 0 THEN 0 ELSE LET z == First(m, p, Min(p + n, N) - 1, {0}) IN IF z = NULL THEN n ELSE z - p
NStr(m, p, n) == Read(m, p, NLen(m, p, n))
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Cmp(_, _, _)
Cmp(s, t, i) == IF i > Len(s) /\ i > Len(t) THEN 0
                ELSE IF i > Len(s) THEN -1
                ELSE IF i > Len(t) THEN 1
                ELSE IF s[i] < t[i] THEN -1 ELSE IF s[i] > t[i] THEN 1 ELSE Cmp(s, t, i + 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Hex(_)
HexD(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(n) == IF n < 16 THEN <<HexD(n)>> ELSE Hex(n \div 16) \o <<HexD(n % 16)>>
RECURSIVE Oct(_)
Oct(n) == IF n < 8 THEN <<48 + n>> ELSE Oct(n \div 8) \o <<48 + (n % 8)>>
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97 .. 122 THEN s[i] - 32 ELSE s[i]]
(* the text of the conversions of printf; values of floating-point types are integral *)
PfText(c, v) ==
  CASE c \in {0, 1, 2, 5, 6, 8, 9, 10, 14, 19, 20, 21, 22} -> Dec(v)
    [] c \in {3, 18} -> Oct(v)
    [] c \in {4, 7, 23} -> Hex(v)
    [] c \in {11, 12, 13} -> Dec(v) \o <<46, 48, 48, 48, 48, 48, 48>>
    [] c = 15 -> <<v>>
    [] c = 16 -> Upper(Hex(v))
    [] c = 17 -> <<48, 120>> \o Hex(v)
PnSize == <<4, 8, 8, 8, 8>>
(* the conversions of scanf: base, and the representation of the result *)
SfBase == <<10, 10, 10, 8, 16, 10, 10, 8, 10, 16, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 16, 10, 16, 10>>
SfRep == <<"i4", "i4", "i4", "i4", "i4", "i8", "i8", "i8", "i8", "i8", "i8", "i8", "i8", "i8", "f4", "f4", "f4", "f8", "f10", "f8", "i8", "i8", "f4", "i4", "f4">>
DigitOf(b) == IF b \in 48 .. 57 THEN b - 48 ELSE IF b \in 97 .. 102 THEN b - 87 ELSE IF b \in 65 .. 70 THEN b - 55 ELSE 99
RECURSIVE ScanLen(_, _, _)
ScanLen(m, p, base) == IF DigitOf(m[p]) < base THEN 1 + ScanLen(m, p + 1, base) ELSE 0
RECURSIVE ScanVal(_, _, _, _)
ScanVal(m, p, base, acc) == IF DigitOf(m[p]) < base THEN ScanVal(m, p + 1, base, base * acc + DigitOf(m[p])) ELSE acc
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Le(n, k) == [i \in 1 .. k |-> IF i > 4 THEN 0 ELSE (n \div Pow2(8 * (i - 1))) % 256]
(* integers below 2^20 in the IEEE formats, and in the 80-bit extended format *)
Rep(r, n) ==
  CASE r = "i4" -> Le(n, 4)
    [] r = "i8" -> Le(n, 8)
    [] n = 0 -> Le(0, IF r = "f4" THEN 4 ELSE IF r = "f8" THEN 8 ELSE 10)
    [] r = "f4" -> LET e == Log2(n) IN Le((e + 127) * Pow2(23) + (n - Pow2(e)) * Pow2(23 - e), 4)
    [] r = "f8" -> LET e == Log2(n) IN Le(0, 4) \o Le((e + 1023) * Pow2(20) + (n - Pow2(e)) * Pow2(20 - e), 4)
    [] r = "f10" -> LET e == Log2(n) IN Le(0, 5) \o Le(n * Pow2(23 - e), 3) \o Le(16383 + e, 2)
ErrText == 1 :> <<79, 112, 101, 114, 97, 116, 105, 111, 110, 32, 110, 111, 116, 32, 112, 101, 114, 109, 105, 116, 116, 101, 100>>
        @@ 5 :> <<73, 110, 112, 117, 116, 47, 111, 117, 116, 112, 117, 116, 32, 101, 114, 114, 111, 114>>
        @@ 9999 :> <<85, 110, 107, 110, 111, 119, 110, 32, 101, 114, 114, 111, 114, 32, 57, 57, 57, 57>>
ScanTwoD(m, p) == 10 * (m[p] - 48) + m[p + 1] - 48
TwoD(n) == <<48 + n \div 10, 48 + (n % 10)>>
RECURSIVE ScanD(_, _, _)
ScanD(m, p, acc) == IF m[p] \in 48 .. 57 THEN ScanD(m, p + 1, 10 * acc + m[p] - 48) ELSE acc
Le4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
RECURSIVE InsertS(_, _)
InsertS(s, b) == IF s = <<>> THEN <<b>> ELSE IF b <= Head(s) THEN <<b>> \o s ELSE <<Head(s)>> \o InsertS(Tail(s), b)
RECURSIVE SortS(_)
SortS(s) == IF s = <<>> THEN <<>> ELSE InsertS(SortS(Tail(s)), Head(s))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

R(r) == [r |-> r, m |-> view, s |-> save, bytes |-> <<>>]
RM(r, m) == [r |-> r, m |-> m, s |-> save, bytes |-> <<>>]
RB(b) == [r |-> 0, m |-> view, s |-> save, bytes |-> b]
(* output of a formatted string to at most n bytes *)
Format(p, n, s) == RM(Len(s), IF n = 0 THEN view ELSE Write(view, p, SubSeq(s, 1, Min(n - 1, Len(s))) \o <<0>>))

StrTok(str, delim) ==
  LET D == SetOf(Str(view, delim))
      start == IF str = NULL THEN save ELSE str
      z == Z(view, start)
      b == FirstNot(view, start, z - 1, D)
  IN IF start = z \/ b = NULL THEN [r |-> NULL, m |-> view, s |-> z, bytes |-> <<>>]
     ELSE LET e == First(view, b, z - 1, D)
          IN IF e = NULL THEN [r |-> b, m |-> view, s |-> z, bytes |-> <<>>]
             ELSE [r |-> b, m |-> Write(view, e, <<0>>), s |-> e + 1, bytes |-> <<>>]

(* f: the function, a: its arguments; b: bytes for store *)
Apply1(f, a, b) ==
  CASE f = "load" -> RB(Read(view, a[1], a[2]))
    [] f = "store" -> RM(0, Write(view, a[1], b))
    [] f = "privload" -> RB(Read(view, a[1], a[2]))
    [] f = "privstore" -> RM(0, Write(view, a[1], b))
    [] f = "memccpy" -> LET k == First(view, a[2], Min(a[2] + a[4], N) - 1, {Byte(a[3])})
                            n == IF k = NULL THEN a[4] ELSE k - a[2] + 1
                        IN RM(IF k = NULL THEN NULL ELSE a[1] + n, Write(view, a[1], Read(view, a[2], n)))
    [] f = "memchr" -> R(First(view, a[1], a[1] + a[3] - 1, {Byte(a[2])}))
    [] f = "memrchr" -> R(Last(view, a[1], a[1] + a[3] - 1, {Byte(a[2])}))
    [] f = "rawmemchr" -> R(First(view, a[1], N - 1, {Byte(a[2])}))
    [] f = "memcmp" -> R(Cmp(Read(view, a[1], a[3]), Read(view, a[2], a[3]), 1))
    [] f \in {"memcpy", "memmove"} -> RM(a[1], Write(view, a[1], Read(view, a[2], a[3])))
    [] f = "memset" -> RM(a[1], Write(view, a[1], Fill(a[3], Byte(a[2]))))
    [] f = "stpcpy" -> RM(a[1] + StrLen(view, a[2]), Write(view, a[1], Str(view, a[2]) \o <<0>>))
    [] f = "strcpy" -> RM(a[1], Write(view, a[1], Str(view, a[2]) \o <<0>>))
    [] f \in {"stpncpy", "strncpy"} ->
         LET s == NStr(view, a[2], a[3])
         IN RM(IF f = "stpncpy" THEN a[1] + Len(s) ELSE a[1], Write(view, a[1], s \o Fill(a[3] - Len(s), 0)))
    [] f = "strcat" -> RM(a[1], Write(view, Z(view, a[1]), Str(view, a[2]) \o <<0>>))
    [] f = "strncat" -> RM(a[1], Write(view, Z(view, a[1]), NStr(view, a[2], a[3]) \o <<0>>))
    [] f = "strchr" -> R(First(view, a[1], Z(view, a[1]), {Byte(a[2])}))
    [] f = "strrchr" -> R(Last(view, a[1], Z(view, a[1]), {Byte(a[2])}))
    [] f \in {"strcmp", "strcoll_l"} -> R(Cmp(Str(view, a[1]), Str(view, a[2]), 1))
    [] f = "strncmp" -> R(Cmp(NStr(view, a[1], a[3]), NStr(view, a[2], a[3]), 1))
    [] f = "strcspn" -> LET k == First(view, a[1], Z(view, a[1]) - 1, SetOf(Str(view, a[2])))
                        IN R(IF k = NULL THEN StrLen(view, a[1]) ELSE k - a[1])
    [] f = "strspn" -> LET k == FirstNot(view, a[1], Z(view, a[1]) - 1, SetOf(Str(view, a[2])))
                       IN R(IF k = NULL THEN StrLen(view, a[1]) ELSE k - a[1])
    [] f = "strpbrk" -> R(First(view, a[1], Z(view, a[1]) - 1, SetOf(Str(view, a[2]))))
    [] f = "strlen" -> R(StrLen(view, a[1]))
    [] f = "strnlen" -> R(NLen(view, a[1], a[2]))
    [] f = "strdup" -> RB(Str(view, a[1]) \o <<0>>)
    [] f = "strndup" -> RB(NStr(view, a[1], a[2]) \o <<0>>)
    [] f = "strstr" -> LET n == Str(view, a[2])
                           H == {i \in a[1] .. Z(view, a[1]) - Len(n) : Read(view, i, Len(n)) = n}
                       IN R(IF H = {} THEN NULL ELSE MinOf(H))
    [] f = "strtok_r" -> StrTok(a[1], a[2])
    [] f = "printf_s" -> Format(a[1], a[2], <<60>> \o Str(view, a[3]) \o <<62>>)
    [] f = "printf_d" -> Format(a[1], a[2], Dec(a[3]))
    [] f = "printf_sx" -> Format(a[1], a[2], Str(view, a[3]) \o <<37>> \o Hex(a[4]))
    [] f = "scanf_d" -> IF view[a[1]] \in 48 .. 57 THEN RM(1, Write(view, a[2], Le4(ScanD(view, a[1], 0)))) ELSE R(0)
    [] f = "strftime" -> RM(5, Write(view, a[1], TwoD(a[3]) \o <<58>> \o TwoD(a[4]) \o <<0>>))
    [] f = "pf" -> Format(a[1], a[2], PfText(a[4], a[5]) \o <<124>> \o Str(view, a[3]))
    [] f = "pn" -> LET x == Format(a[1], a[2], <<60>> \o Str(view, a[3]) \o <<62>>)
                   IN [x EXCEPT !.m = Write(x.m, a[5], Le(x.r, PnSize[a[4] + 1]))]
    [] f = "sf" -> LET k == ScanLen(view, a[1], SfBase[a[4] + 1])
                   IN IF k = 0 THEN R(0)
                      ELSE RM(1, Write(Write(view, a[2], Rep(SfRep[a[4] + 1], ScanVal(view, a[1], SfBase[a[4] + 1], 0))), a[5], Le(k, 4)))
    \* known messages are constants, others are made in the buffer
    [] f = "strerror_g" -> LET n == Min(a[2] - 1, Len(ErrText[a[3]]))
                               t == IF a[2] = 0 THEN <<>> ELSE SubSeq(ErrText[a[3]], 1, n) \o <<0>>
                           IN IF a[3] = 9999 THEN [R(1) EXCEPT !.m = Write(view, a[1], t), !.bytes = t]
                              ELSE [R(0) EXCEPT !.bytes = IF a[2] = 0 THEN <<>> ELSE ErrText[a[3]] \o <<0>>]
    [] f = "strerror_p" -> RM(0, Write(view, a[1], ErrText[a[3]] \o <<0>>))
    \* the generator's arithmetic is the plain function's
    [] f = "rand_r" -> RM(a[2], Write(view, a[1], b))
    [] f = "strptime" -> RM(a[1] + 5, Write(view, a[2] + 4, Le4(ScanTwoD(view, a[1] + 3)) \o Le4(ScanTwoD(view, a[1]))))
    [] f = "strftime_r" -> RM(5, Write(view, a[1], TwoD(view[a[3] + 8]) \o <<58>> \o TwoD(view[a[3] + 4]) \o <<0>>))
    [] f = "qsort" -> RM(0, Write(view, a[1], SortS(Read(view, a[1], a[2]))))

Init0(m) == mem = m /\ view = m /\ msave = NULL /\ save = NULL /\ phase = "idle"
Begin == phase \in {"idle", "undone", "restart"} /\ phase' = "exec" /\ view' = mem /\ save' = msave /\ UNCHANGED <<mem, msave>>
Call(f, a, b, r, bytes) ==
    /\ phase = "exec"
    /\ LET x == Apply1(f, a, b)
       IN x.r = r /\ x.bytes = bytes /\ view' = x.m /\ save' = x.s
    /\ UNCHANGED <<mem, msave, phase>>
Fail == phase \in {"exec", "commit"} /\ phase' = "fail" /\ UNCHANGED <<mem, view, msave, save>>
Commit == phase = "exec" /\ phase' = "commit" /\ UNCHANGED <<mem, view, msave, save>>
Apply == phase = "commit" /\ phase' = "apply" /\ mem' = view /\ msave' = save /\ UNCHANGED <<view, save>>
Undo == phase = "fail" /\ phase' = "undo" /\ view' = mem /\ save' = msave /\ UNCHANGED <<mem, msave>>
Finish == /\ phase \in {"apply", "undo"}
          /\ phase' = (IF phase = "apply" THEN "done" ELSE "undone")
          /\ UNCHANGED <<mem, view, msave, save>>
Recover == phase = "undone" /\ phase' = "recovery" /\ UNCHANGED <<mem, view, msave, save>>
Restart == phase = "recovery" /\ phase' = "restart" /\ UNCHANGED <<mem, view, msave, save>>
EndTx == phase \in {"done", "recovery"} /\ phase' = "idle" /\ UNCHANGED <<mem, view, msave, save>>
(* real memory is only defined outside of transactions *)
Look(m) == phase \in {"idle", "recovery", "exec"} /\ (IF phase = "exec" THEN TRUE ELSE m = mem) /\ UNCHANGED vars
=============================================================================
