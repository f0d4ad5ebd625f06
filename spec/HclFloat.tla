------------------------------- MODULE HclFloat -------------------------------
(***************************************************************************)
(* The numbers of HCL: exact integers of 64 bits (signed or unsigned) and   *)
(* finite binary64 numbers.  A number is [neg, m, e] = (-1)^neg * m * 2^e,   *)
(* m odd; zero is [FALSE, <<>>, 0].  Integers and floats which are equal are *)
(* the same number, there is no negative zero.                              *)
(***************************************************************************)
EXTENDS HclNumber, HclBig

Num(neg, m, e) == IF m = <<>> THEN [neg |-> FALSE, m |-> <<>>, e |-> 0]
                  ELSE LET z == TrailZ(m) IN [neg |-> neg, m |-> Shr(m, z), e |-> e + z]
NZero == Num(FALSE, <<>>, 0)
NInt(n) == IF n < 0 THEN Num(TRUE, OfInt(-n), 0) ELSE Num(FALSE, OfInt(n), 0)
Msb(n) == BitLen(n.m) + n.e  \* the value is below 2^Msb
Finite(n) == Msb(n) <= 1024

(* exact arithmetic *)
CmpMag(a, b) == \* of magnitudes
  IF a.m = <<>> \/ b.m = <<>> THEN (IF a.m = b.m THEN 0 ELSE IF a.m = <<>> THEN -1 ELSE 1)
  ELSE IF Msb(a) # Msb(b) THEN (IF Msb(a) < Msb(b) THEN -1 ELSE 1)
  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e IN BCmp(Shl(a.m, a.e - e), Shl(b.m, b.e - e))
NCmp(a, b) ==
  IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1) ELSE IF a.neg THEN CmpMag(b, a) ELSE CmpMag(a, b)
XNeg(a) == IF a.m = <<>> THEN a ELSE [a EXCEPT !.neg = ~@]
XAdd(a, b) ==
  IF a.m = <<>> THEN b ELSE IF b.m = <<>> THEN a
  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
           x == Shl(a.m, a.e - e)
           y == Shl(b.m, b.e - e)
       IN IF a.neg = b.neg THEN Num(a.neg, BAdd(x, y), e)
          ELSE IF BCmp(x, y) >= 0 THEN Num(a.neg, BSub(x, y), e) ELSE Num(b.neg, BSub(y, x), e)
XMul(a, b) == IF a.m = <<>> \/ b.m = <<>> THEN NZero ELSE Num(a.neg # b.neg, BMul(a.m, b.m), a.e + b.e)
(* the remainder of the truncated division: it has the sign of a *)
XRem(a, b) ==
  IF a.m = <<>> THEN NZero
  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
       IN Num(a.neg, BDivMod(Shl(a.m, a.e - e), Shl(b.m, b.e - e))[2], e)

(* The closest binary64 number, ties to even, of m * 2^e, or of something    *)
(* strictly between m * 2^e and (m + 1) * 2^e if rest (then m has at least  *)
(* 55 bits).  Not Finite if it is too large.                                *)
Round(neg, m, e, rest) ==
  IF m = <<>> THEN NZero
  ELSE LET top == BitLen(m) + e - 1
           q == IF top - 52 > -1074 THEN top - 52 ELSE -1074
           s == q - e
       IN IF s <= 0 THEN Num(neg, m, e)
          ELSE LET h == Shr(m, s)
                   half == BitAt(m, s - 1) = 1
                   tie == ~rest /\ LowZero(m, s - 1)
                   up == half /\ (~tie \/ (h # <<>> /\ h[1] % 2 = 1))
               IN Num(neg, IF up THEN BAdd(h, <<1>>) ELSE h, q)
RoundN(n) == Round(n.neg, n.m, n.e, FALSE)
RDiv(a, b) == \* b # 0
  IF a.m = <<>> THEN NZero
  ELSE LET s == 1200 + 66 + BitLen(b.m) - BitLen(a.m) - 1200
           k == IF s > 0 THEN s ELSE 0
           r == BDivMod(Shl(a.m, k), b.m)
       IN Round(a.neg # b.neg, r[1], a.e - b.e - k, r[2] # <<>>)

(* integers of 64 bits *)
IsInt(n) == n.m = <<>> \/ (n.e >= 0 /\ Msb(n) <= 64 /\
                           (n.neg => Msb(n) <= 63 \/ (n.m = <<1>> /\ n.e = 63)))
IsUint(n) == IsInt(n) /\ ~n.neg
IsSint(n) == n.m = <<>> \/ (IsInt(n) /\ (~n.neg => Msb(n) <= 63))
Canon(n) == IF IsInt(n) THEN n ELSE RoundN(n)

(* Operators of HCL.  Integers are computed with exactly, and results out of *)
(* range become the closest floats.  If a float takes part, both are floats. *)
Both(a, b) == IsInt(a) /\ IsInt(b)
NNeg(a) == Canon(XNeg(a))
NAdd(a, b) == IF Both(a, b) THEN Canon(XAdd(a, b)) ELSE RoundN(XAdd(RoundN(a), RoundN(b)))
NSub(a, b) == IF Both(a, b) THEN Canon(XAdd(a, XNeg(b))) ELSE RoundN(XAdd(RoundN(a), XNeg(RoundN(b))))
NMul(a, b) ==
  LET x == XMul(a, b) IN
  \* products of more than 127 bits are computed with floats
  IF Both(a, b) /\ Msb(x) <= 127 THEN Canon(x) ELSE RoundN(XMul(RoundN(a), RoundN(b)))
NDiv(a, b) == RDiv(RoundN(a), RoundN(b))
NRem(a, b) == IF Both(a, b) THEN XRem(a, b) ELSE XRem(RoundN(a), RoundN(b))
Arith(op, a, b) == \* [t: ok|err, v]
  LET res == CASE op = "+" -> NAdd(a, b)
               [] op = "-" -> NSub(a, b)
               [] op = "*" -> NMul(a, b)
               [] op = "/" -> IF b.m = <<>> THEN NZero ELSE NDiv(a, b)
               [] op = "%" -> IF b.m = <<>> THEN NZero ELSE NRem(a, b)
  IN IF (op \in {"/", "%"} /\ b.m = <<>>) \/ ~Finite(res) THEN [t |-> "err"] ELSE [t |-> "ok", v |-> res]

-----------------------------------------------------------------------------
(* Decimals [neg, digs, x] (see HclNumber).                                 *)
RoundDec(d) ==
  IF d.digs = <<>> THEN NZero
  ELSE LET k == d.x - Len(d.digs)
           m == OfDigits(d.digs, 1, <<>>)
       IN IF d.x > 400 THEN Num(d.neg, <<1>>, 5000)
          ELSE IF d.x < -400 THEN NZero
          ELSE IF k >= 0 THEN Round(d.neg, BMul(m, Pow5(k)), k, FALSE)
          ELSE LET p == Pow5(-k)
                   s == MaxI(0, 66 + BitLen(p) - BitLen(m))
                   r == BDivMod(Shl(m, s), p)
               IN Round(d.neg, r[1], k - s, r[2] # <<>>)
ExactInt(d) == LET m == OfDigits(d.digs, 1, <<>>) k == d.x - Len(d.digs) IN Num(d.neg, BMul(m, Pow5(k)), k)
(* the number a decimal denotes which is written without fraction and       *)
(* exponent if it is an integer                                             *)
OfDec(d) == IF FitsU64Val(d) \/ FitsI64Val(d) THEN ExactInt(d) ELSE RoundDec(d)

(* The decimal with the fewest digits which rounds to a number, the closest  *)
(* one of these.  Integers are written exactly.                             *)
Exact(n) == \* the decimal expansion
  IF n.m = <<>> THEN ZeroVal
  ELSE IF n.e >= 0 THEN LET ds == DigitsOfBig(Shl(n.m, n.e), <<>>) IN NormVal(n.neg, ds, Len(ds), 0)
  ELSE LET ds == DigitsOfBig(BMul(n.m, Pow5(-n.e)), <<>>) IN NormVal(n.neg, ds, Len(ds) + n.e, 0)
RECURSIVE Incr(_, _)
Incr(ds, i) == \* <<carry, digits>>
  IF i = 0 THEN <<1>> \o ds
  ELSE IF ds[i] = 9 THEN Incr([ds EXCEPT ![i] = 0], i - 1) ELSE [ds EXCEPT ![i] = @ + 1]
Cut0(d, l) == NormVal(d.neg, SubSeq(d.digs, 1, l), d.x, 0)
Up0(d, l) == LET ds == SubSeq(d.digs, 1, l)
                 up == Incr(ds, l)
             IN NormVal(d.neg, up, d.x + Len(up) - l, 0)
(* is the rest behind digit l less than (-1), equal to (0) or more than (1) half? *)
Behind(d, l) == LET h == d.digs[l + 1] IN
                IF h < 5 THEN -1 ELSE IF h > 5 \/ Len(d.digs) > l + 1 THEN 1 ELSE 0
RECURSIVE ShortFrom(_, _, _)
ShortFrom(n, d, l) ==
  IF Len(d.digs) <= l THEN d
  ELSE LET lo == Cut0(d, l)
           hi == Up0(d, l)
           los == l < 17 /\ RoundDec(lo) # n
           his == l < 17 /\ RoundDec(hi) # n
           b == Behind(d, l)
           near == IF b < 0 \/ (b = 0 /\ d.digs[l] % 2 = 0) THEN lo ELSE hi
       IN IF los /\ his THEN ShortFrom(n, d, l + 1)
          ELSE IF los THEN hi ELSE IF his THEN lo ELSE near
Shortest(n) == LET d == Exact(n) IN
               IF IsInt(n) \/ (Len(d.digs) <= 15 /\ Msb(n) > -1021) THEN d
               ELSE ShortFrom(n, d, IF Msb(n) > -1021 THEN 15 ELSE 1)

(* the number a literal denotes, as the decimal it is written as *)
ShortDec(d) == Len(d.digs) <= 15 /\ d.x > -290 /\ d.x < 290
LitVal(txt) ==
  LET d == NumVal(txt) IN
  IF ShortDec(d) THEN d ELSE Shortest(IF \A k \in 1..Len(txt) : IsDigit(txt[k]) THEN OfDec(d) ELSE Canon(RoundDec(d)))
NegLit(d) == IF ShortDec(d) THEN NegVal(d) ELSE Shortest(NNeg(OfDec(d)))
=============================================================================
