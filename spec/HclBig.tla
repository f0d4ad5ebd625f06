-------------------------------- MODULE HclBig --------------------------------
(* Natural numbers of any size: little-endian limbs of 14 bits without       *)
(* leading zeros; zero is <<>>.  (TLC's integers have 32 bits.)             *)
EXTENDS Integers, Sequences

LimbBits == 14
Limb == 16384

RECURSIVE TrimN(_, _)
TrimN(a, n) == IF n > 0 /\ a[n] = 0 THEN TrimN(a, n - 1) ELSE n
Trim(a) == LET n == TrimN(a, Len(a)) IN IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)
LimbAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Limb>> \o OfInt(n \div Limb)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == LimbAt(a, i) + LimbAt(b, i) + c IN AddFrom(a, b, i + 1, s \div Limb, Append(acc, s % Limb))
BAdd(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) == \* a >= b
  IF i > Len(a) THEN Trim(acc)
  ELSE LET s == a[i] - LimbAt(b, i) - c IN SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % Limb))
BSub(a, b) == SubFrom(a, b, 1, 0, <<>>)

RECURSIVE MulSFrom(_, _, _, _, _)
MulSFrom(a, k, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[i] * k + c IN MulSFrom(a, k, i + 1, s \div Limb, Append(acc, s % Limb))
BMulS(a, k) == IF k = 0 THEN <<>> ELSE MulSFrom(a, k, 1, 0, <<>>)  \* 0 <= k < Limb
RECURSIVE ZeroLimbs(_)
ZeroLimbs(n) == IF n = 0 THEN <<>> ELSE Append(ZeroLimbs(n - 1), 0)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, i, acc) ==
  IF i = 0 THEN acc
  ELSE MulFrom(a, b, i - 1, BAdd(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc, BMulS(a, b[i])))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, Len(b), <<>>)

RECURSIVE DivSFrom(_, _, _, _, _)
DivSFrom(a, k, i, r, acc) ==
  IF i = 0 THEN <<Trim(acc), r>>
  ELSE LET s == r * Limb + a[i] IN DivSFrom(a, k, i - 1, s % k, <<s \div k>> \o acc)
BDivS(a, k) == DivSFrom(a, k, Len(a), 0, <<>>)  \* <<quotient, remainder>>, 0 < k < Limb

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * LimbBits + BitsOf(a[Len(a)])
Shl(a, k) == IF a = <<>> THEN a ELSE ZeroLimbs(k \div LimbBits) \o BMulS(a, 2 ^ (k % LimbBits))
Shr(a, k) == IF k \div LimbBits >= Len(a) THEN <<>>
             ELSE BDivS(SubSeq(a, k \div LimbBits + 1, Len(a)), 2 ^ (k % LimbBits))[1]
BitAt(a, k) == (LimbAt(a, k \div LimbBits + 1) \div (2 ^ (k % LimbBits))) % 2  \* k >= 0
(* are the lowest k bits zero? *)
LowZero(a, k) == /\ \A i \in 1..(k \div LimbBits) : LimbAt(a, i) = 0
                 /\ LimbAt(a, k \div LimbBits + 1) % (2 ^ (k % LimbBits)) = 0
RECURSIVE TrailBits(_)
TrailBits(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TrailBits(n \div 2)
RECURSIVE TrailFrom(_, _)
TrailFrom(a, i) == IF a[i] = 0 THEN LimbBits + TrailFrom(a, i + 1) ELSE TrailBits(a[i])
TrailZ(a) == TrailFrom(a, 1)  \* a # <<>>

(* Long division by b, whose highest bit is set: the leading limbs estimate  *)
(* each digit, by at most 2 too high.                                       *)
RECURSIVE Digit(_, _, _)
Digit(r, b, q) == LET p == BMulS(b, q) IN IF BCmp(p, r) <= 0 THEN <<q, BSub(r, p)>> ELSE Digit(r, b, q - 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, r, acc) ==
  IF i = 0 THEN <<Trim(acc), r>>
  ELSE LET r1 == IF r = <<>> THEN (IF a[i] = 0 THEN <<>> ELSE <<a[i]>>) ELSE <<a[i]>> \o r
           n == Len(b)
           g == (LimbAt(r1, n + 1) * Limb + LimbAt(r1, n)) \div b[n]
       IN IF BCmp(r1, b) < 0 THEN DivFrom(a, b, i - 1, r1, <<0>> \o acc)
          ELSE LET d == Digit(r1, b, IF g >= Limb THEN Limb - 1 ELSE g)
               IN DivFrom(a, b, i - 1, d[2], <<d[1]>> \o acc)
BDivMod(a, b) ==
  IF Len(b) = 1 THEN LET r == BDivS(a, b[1]) IN <<r[1], IF r[2] = 0 THEN <<>> ELSE <<r[2]>>>>
  ELSE LET s == LimbBits - BitsOf(b[Len(b)])
           x == Shl(a, s)
           y == Shl(b, s)
           n == Len(y) - 1
       IN IF BCmp(a, b) < 0 THEN <<<<>>, a>>
          ELSE LET r == DivFrom(x, y, Len(x) - n, Trim(SubSeq(x, Len(x) - n + 1, Len(x))), <<>>)
               IN <<r[1], Shr(r[2], s)>>

RECURSIVE Pow5(_)
Pow5(k) == IF k = 0 THEN <<1>>
           ELSE IF k >= 36 THEN LET h == Pow5(k \div 2) IN
                                IF k % 2 = 0 THEN BMul(h, h) ELSE BMulS(BMul(h, h), 5)
           ELSE IF k >= 6 THEN BMulS(Pow5(k - 6), 15625) ELSE BMulS(Pow5(k - 1), 5)
(* the number with the given decimal digits *)
RECURSIVE OfDigits(_, _, _)
OfDigits(d, i, acc) ==
  IF i > Len(d) THEN acc
  ELSE IF i + 3 <= Len(d)
  THEN LET n == d[i] * 1000 + d[i + 1] * 100 + d[i + 2] * 10 + d[i + 3]
       IN OfDigits(d, i + 4, BAdd(BMulS(acc, 10000), IF n = 0 THEN <<>> ELSE <<n>>))
  ELSE OfDigits(d, i + 1, BAdd(BMulS(acc, 10), IF d[i] = 0 THEN <<>> ELSE <<d[i]>>))
(* decimal digits, most significant first *)
RECURSIVE DigitsOfBig(_, _)
DigitsOfBig(a, acc) ==
  IF a = <<>> THEN acc
  ELSE LET r == BDivS(a, 10000)
           n == r[2]
       IN DigitsOfBig(r[1], <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>> \o acc)
=============================================================================
