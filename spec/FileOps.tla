------------------------------ MODULE FileOps ------------------------------
(* Contents of files as sequences of bytes *)
EXTENDS Naturals, Integers, Sequences
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* contents d after bytes b have been written at offset o; a hole reads as zeros *)
WriteAt(d, o, b) ==
  IF b = <<>> THEN d
  ELSE [i \in 1..Max2(Len(d), o + Len(b)) |->
         IF i > o /\ i <= o + Len(b) THEN b[i - o] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
ReadAt(d, o, n) == SubSeq(d, o + 1, Min2(Len(d), o + n))
=============================================================================
