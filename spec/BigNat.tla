------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian sequences of base-10^4      *)
(* limbs without leading (trailing in the sequence) zero limbs; zero is     *)
(* <<>>.  TLC integers are 32-bit, sizes and counts of a heap dump are not. *)
EXTENDS Naturals, Integers, Sequences

Base == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))

(* canonical BigNat of a small natural number *)
RECURSIVE BN(_)
BN(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BN(n \div Base)

RECURSIVE BAddC(_, _, _)
BAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
       IN <<s % Base>> \o BAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), s \div Base)
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE BAddC(a, b, 0)

(* a * m + c for small m < 2^17 and carry c *)
RECURSIVE BMulC(_, _, _)
BMulC(a, m, c) ==
  IF a = <<>> THEN BN(c)
  ELSE LET s == Head(a) * m + c IN <<s % Base>> \o BMulC(Tail(a), m, s \div Base)
BMulS(a, m) == BTrim(BMulC(a, m, 0))

RECURSIVE BMul(_, _)
BMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE BAdd(BMulS(a, Head(b)), LET t == BMul(a, Tail(b)) IN IF t = <<>> THEN <<>> ELSE <<0>> \o t)

(* -1, 0, 1 *)
BCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0
          ELSE LET m == CHOOSE i \in D : \A j \in D : j <= i
               IN IF a[m] < b[m] THEN -1 ELSE 1
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1

(* a - b for a >= b *)
RECURSIVE BSubC(_, _, _)
BSubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET s == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
       IN <<(IF s < 0 THEN s + Base ELSE s)>> \o BSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubC(a, b, 0))

(* quotient and remainder by a small number d < 2^17 *)
RECURSIVE BDivR(_, _, _, _)
BDivR(a, i, d, r) == \* processes limbs i, i-1, ..., 1; returns <<quotient limbs, remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET cur == r * Base + a[i]
           rest == BDivR(a, i - 1, d, cur % d)
       IN <<rest[1] \o <<cur \div d>>, rest[2]>>
BDivMod(a, d) == LET x == BDivR(a, Len(a), d, 0) IN <<BTrim(x[1]), x[2]>>

RECURSIVE BOfBytes(_)
BOfBytes(s) == \* big-endian bytes
  IF s = <<>> THEN <<>> ELSE BAdd(BMulS(BOfBytes(SubSeq(s, 1, Len(s) - 1)), 256), BN(s[Len(s)]))

(* decimal digits as ASCII codes *)
RECURSIVE DigitsN(_, _)
DigitsN(n, k) == IF k = 0 THEN <<>> ELSE DigitsN(n \div 10, k - 1) \o <<48 + (n % 10)>>
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE BDecR(_)
BDecR(a) == IF Len(a) = 1 THEN DigitsOf(a[1])
            ELSE BDecR(Tail(a)) \o DigitsN(a[1], 4)
BDec(a) == IF a = <<>> THEN <<48>> ELSE BDecR(a)

(* small value of a BigNat known to be < 10^8 *)
BInt(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + Base * a[2]

(* signed numbers: [neg |-> BOOLEAN, mag |-> BigNat], zero is not negative *)
SInt(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
(* two's complement big-endian bytes *)
SOfBytes(s) == IF s[1] < 128 THEN SInt(FALSE, BOfBytes(s))
               ELSE LET inv == [i \in 1..Len(s) |-> 255 - s[i]] IN SInt(TRUE, BAdd(BOfBytes(inv), BN(1)))
SDec(x) == (IF x.neg THEN <<45>> ELSE <<>>) \o BDec(x.mag)
SLt(x, y) == IF x.neg # y.neg THEN x.neg
             ELSE IF x.neg THEN BLt(y.mag, x.mag) ELSE BLt(x.mag, y.mag)
SSub(x, y) == \* x - y
  IF x.neg # y.neg THEN SInt(x.neg, BAdd(x.mag, y.mag))
  ELSE IF BLe(y.mag, x.mag) THEN SInt(x.neg, BSub(x.mag, y.mag))
       ELSE SInt(~x.neg, BSub(y.mag, x.mag))
RECURSIVE BOfDec(_)
BOfDec(s) == \* of decimal digits
  IF s = <<>> THEN <<>> ELSE BAdd(BMulS(BOfDec(SubSeq(s, 1, Len(s) - 1)), 10), BN(s[Len(s)] - 48))
=============================================================================
