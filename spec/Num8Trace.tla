----------------------------- MODULE Num8Trace -----------------------------
(* Checked arithmetic and casts of the small integer types, exhaustively: each *)
(* row of the recorded table has the outcomes of one operator, type and first  *)
(* operand for all second operands (for a cast: of a run of operands). Some    *)
(* types are those of an application, with a range below that of its C type.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RangeError == 1000000
DomainError == 1000001
Big == 2000000000
Lo == [_Bool |-> 0, char |-> -128, schar |-> -128, short |-> -32768, int |-> -Big, long |-> -Big, llong |-> -Big,
       uchar |-> 0, ushort |-> 0, uint |-> 0, ulong |-> 0, ullong |-> 0, float |-> -Big, double |-> -Big, ldouble |-> -Big,
       port |-> 1024, digit |-> 1, centi |-> -100, hour |-> 10, wide |-> 1, size16 |-> 16, words |-> 0, depth |-> -100, float100 |-> -100, gauge |-> 2,
       nibble |-> -8, milli |-> -64, percent |-> 0]
Hi == [_Bool |-> 1, char |-> 127, schar |-> 127, short |-> 32767, int |-> Big, long |-> Big, llong |-> Big,
       uchar |-> 255, ushort |-> 65535, uint |-> Big, ulong |-> Big, ullong |-> Big, float |-> Big, double |-> Big, ldouble |-> Big,
       port |-> 65535, digit |-> 9, centi |-> 100, hour |-> 12, wide |-> 40000, size16 |-> 300, words |-> 1000, depth |-> -10, float100 |-> 100, gauge |-> 250,
       nibble |-> 7, milli |-> 63, percent |-> 100]
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Fits(t, x) == IF x < Lo[t] \/ x > Hi[t] THEN RangeError ELSE x
Calc(op, t, a, b) == CASE op = "add" -> Fits(t, a + b)
                       [] op = "sub" -> Fits(t, a - b)
                       [] op = "mul" -> Fits(t, a * b)
                       [] op = "div" -> IF b = 0 THEN DomainError ELSE Fits(t, TDiv(a, b))
Expected(r, i) == IF r.op = "cast" THEN Fits(r.dst, r.a + i - 1) ELSE Calc(r.op, r.ty, r.a, Lo[r.ty] + i - 1)
Ok(r) == \A i \in 1..Len(r.row) :
           IF r.row[i] = Expected(r, i) THEN TRUE
           ELSE PrintT(<<"WRONG", r.op, r.ty, r.dst, r.a, i, r.row[i], Expected(r, i)>>) /\ FALSE
Init == l = 1
Next == l <= Len(Rows) /\ Ok(Rows[l]) = TRUE /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
Accepted ==
  LET d == TLCGet("stats").diameter
  IN /\ PrintT("PROGRESS " \o ToString(d - 1) \o " OF " \o ToString(Len(Rows)))
     /\ d - 1 = Len(Rows)
=============================================================================
