------------------------------- MODULE Bytes -------------------------------
(* The two text forms of byte strings.  Byte strings and texts are sequences *)
(* of numbers (byte values, character codes).  All arithmetic is done on     *)
(* single bytes, so that it stays within small integers.                     *)
EXTENDS Integers, Sequences, TLC, Json

-----------------------------------------------------------------------------
(* base64 (RFC 4648)                                                         *)
Char64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52
             ELSE IF v = 62 THEN 43 ELSE 47
Val64(ch) == IF ch >= 65 /\ ch <= 90 THEN ch - 65 ELSE IF ch >= 97 /\ ch <= 122 THEN ch - 97 + 26
             ELSE IF ch >= 48 /\ ch <= 57 THEN ch - 48 + 52 ELSE IF ch = 43 THEN 62 ELSE IF ch = 47 THEN 63 ELSE -1
Pad == 61

RECURSIVE Enc64(_), Dec64(_)
Enc64(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET x == b[1]
           y == IF Len(b) >= 2 THEN b[2] ELSE 0
           z == IF Len(b) >= 3 THEN b[3] ELSE 0
       IN <<Char64(x \div 4), Char64((x % 4) * 16 + y \div 16),
            IF Len(b) >= 2 THEN Char64((y % 16) * 4 + z \div 64) ELSE Pad,
            IF Len(b) >= 3 THEN Char64(z % 64) ELSE Pad>>
          \o (IF Len(b) <= 3 THEN <<>> ELSE Enc64(SubSeq(b, 4, Len(b))))
Dec64(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET v == [i \in 1..4 |-> IF t[i] = Pad THEN 0 ELSE Val64(t[i])]
           n == IF t[3] = Pad THEN 1 ELSE IF t[4] = Pad THEN 2 ELSE 3
           bs == <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>>
       IN SubSeq(bs, 1, n) \o (IF Len(t) <= 4 THEN <<>> ELSE Dec64(SubSeq(t, 5, Len(t))))
WellFormed64(t) == /\ Len(t) % 4 = 0
                   /\ \A i \in 1..Len(t) : Val64(t[i]) >= 0 \/ (t[i] = Pad /\ i > Len(t) - 2)

-----------------------------------------------------------------------------
(* base85 (the alphabet of RFC 1924): groups of four bytes are numbers of    *)
(* five digits; the last group is filled up with zeros and cut.              *)
Alphabet85 == <<48,49,50,51,52,53,54,55,56,57,
  65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
  97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
  33,35,36,37,38,40,41,42,43,45,59,60,61,62,63,64,94,95,96,123,124,125,126>>
Val85(ch) == IF \E i \in 1..85 : Alphabet85[i] = ch THEN (CHOOSE i \in 1..85 : Alphabet85[i] = ch) - 1 ELSE -1

RECURSIVE DivMod(_,_), MulAdd(_,_,_)
(* A number as bytes, most significant first, divided by 85.                 *)
DivMod(b, rem) ==
  IF b = <<>> THEN [q |-> <<>>, r |-> rem]
  ELSE LET v == rem * 256 + b[1]
           x == DivMod(Tail(b), v % 85)
       IN [q |-> <<v \div 85>> \o x.q, r |-> x.r]
(* 85 * b + carry, from the least significant byte b[i]                      *)
MulAdd(b, i, carry) ==
  IF i = 0 THEN b
  ELSE LET v == b[i] * 85 + carry IN MulAdd([b EXCEPT ![i] = v % 256], i - 1, v \div 256)

RECURSIVE Digits(_,_), Value(_,_), Enc85(_), Dec85(_)
Digits(b, n) == IF n = 0 THEN <<>> ELSE LET x == DivMod(b, 0) IN Digits(x.q, n - 1) \o <<x.r>>
Value(ds, acc) == IF ds = <<>> THEN acc ELSE Value(Tail(ds), MulAdd(acc, 4, ds[1]))
Zeros(n) == [i \in 1..n |-> 0]
Enc85(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET n == IF Len(b) >= 4 THEN 4 ELSE Len(b)
           ds == Digits(SubSeq(b, 1, n) \o Zeros(4 - n), 5)
       IN [i \in 1..(n + 1) |-> Alphabet85[ds[i] + 1]] \o (IF Len(b) <= 4 THEN <<>> ELSE Enc85(SubSeq(b, 5, Len(b))))
Dec85(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET n == IF Len(t) >= 5 THEN 5 ELSE Len(t)
           ds == [i \in 1..5 |-> IF i <= n THEN Val85(t[i]) ELSE 84]
       IN SubSeq(Value(ds, Zeros(4)), 1, n - 1) \o (IF Len(t) <= 5 THEN <<>> ELSE Dec85(SubSeq(t, 6, Len(t))))
WellFormed85(t) == /\ Len(t) % 5 # 1
                   /\ \A i \in 1..Len(t) : Val85(t[i]) >= 0

-----------------------------------------------------------------------------
(* Byte strings, built one byte at a time; both forms are inverses of their  *)
(* readings, and the texts are printed to be read by the implementation.     *)
CONSTANTS Alphabet, MaxLen
VARIABLE b
BInit == b = <<>>
BNext == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)
BSpec == BInit /\ [][BNext]_b

Laws == LET e == Enc64(b) f == Enc85(b) IN
        /\ WellFormed64(e) /\ Dec64(e) = b
        /\ WellFormed85(f) /\ Dec85(f) = b
        /\ PrintT(<<"CASE", ToJson([raw |-> b, b64 |-> e, b85 |-> f])>>)
=============================================================================
