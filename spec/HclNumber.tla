------------------------------ MODULE HclNumber ------------------------------
(***************************************************************************)
(* Decimal numbers.  A digit string is a sequence of 0..9.  A value is      *)
(* [neg, digs, x] meaning (-1)^neg * 0.d1d2d3... * 10^x with d1 # 0 and the  *)
(* last digit # 0; zero is digs = <<>>, x = 0, neg = FALSE.                  *)
(***************************************************************************)
EXTENDS HclChars

RECURSIVE CmpDigits(_, _, _)
(* compares digit strings as fractions 0.d1d2...: -1, 0, 1 *)
CmpDigits(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE LET x == IF i <= Len(a) THEN a[i] ELSE 0
           y == IF i <= Len(b) THEN b[i] ELSE 0
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpDigits(a, b, i + 1)

RECURSIVE LeadZeros(_, _), TrailZeros(_, _)
LeadZeros(d, i) == IF i <= Len(d) /\ d[i] = 0 THEN LeadZeros(d, i + 1) ELSE i - 1
TrailZeros(d, i) == IF i >= 1 /\ d[i] = 0 THEN TrailZeros(d, i - 1) ELSE i

ZeroVal == [neg |-> FALSE, digs |-> <<>>, x |-> 0]
(* d as digits with the decimal point after position k, times 10^e *)
NormVal(neg, d, k, e) ==
  LET z == LeadZeros(d, 1)
      l == TrailZeros(d, Len(d))
  IN IF z = Len(d) THEN ZeroVal
     ELSE [neg |-> neg, digs |-> SubSeq(d, z + 1, l), x |-> k - z + e]
NegVal(v) == IF v.digs = <<>> THEN v ELSE [v EXCEPT !.neg = ~v.neg]

ValLess1(a, b) == \* a < b for non-negative values
  IF a.digs = <<>> THEN b.digs # <<>>
  ELSE IF b.digs = <<>> THEN FALSE
  ELSE a.x < b.x \/ (a.x = b.x /\ CmpDigits(a.digs, b.digs, 1) = -1)
ValCmp(a, b) ==
  IF a = b THEN 0
  ELSE IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
  ELSE IF ValLess1(a, b) THEN (IF a.neg THEN 1 ELSE -1) ELSE (IF a.neg THEN -1 ELSE 1)
IsIntVal(v) == Len(v.digs) <= v.x

U64Max == [neg |-> FALSE, digs |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, x |-> 20]
I64MinAbs == [neg |-> FALSE, digs |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, x |-> 19]
(* smallest magnitude that rounds to infinity in binary64 *)
F64Inf == [neg |-> FALSE,
  digs |-> <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,5,3,0,3,4,1,5,0,7,9,9,3,4,1,3,
             2,7,1,0,0,3,7,8,2,6,9,3,6,1,7,3,7,7,8,9,8,0,4,4,4,9,6,8,2,9,2,7,6,4,7,5,0,9,4,6,6,4,9,0,1,7>>,
  x |-> 309]
FitsU64Val(v) == ~v.neg /\ IsIntVal(v) /\ ValCmp(v, U64Max) <= 0
FitsI64Val(v) == IsIntVal(v) /\ IF v.neg THEN ValCmp(NegVal(v), I64MinAbs) <= 0
                                ELSE ValCmp(v, I64MinAbs) < 0
FiniteVal(v) == ValCmp([v EXCEPT !.neg = FALSE], F64Inf) < 0

(* ----------------------------------------------- numbers in source texts *)
DigitsOf(s, a, b) == [i \in 1..(b - a) |-> s[a + i - 1] - 48]
RECURSIVE DigEnd(_, _)
DigEnd(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN DigEnd(s, p + 1) ELSE p

RECURSIVE ToInt(_, _, _)
ToInt(d, i, acc) == IF i > Len(d) THEN acc
                    ELSE ToInt(d, i + 1, IF acc > 100000 THEN acc ELSE acc * 10 + d[i])

FitsU64(txt) == FitsU64Val(NormVal(FALSE, DigitsOf(txt, 1, Len(txt) + 1), Len(txt), 0))

(* exponent at p: [t: ok|bt|cut, p: end] *)
ExpEnd(s, p) ==
  IF p > Len(s) \/ s[p] \notin {69, 101} THEN [t |-> "bt", p |-> p]
  ELSE LET q == IF p + 1 <= Len(s) /\ s[p + 1] \in {43, 45} THEN p + 2 ELSE p + 1
           e == DigEnd(s, q)
       IN IF e = q THEN [t |-> "cut", p |-> q] ELSE [t |-> "ok", p |-> e]

(* value of the text digits [ . digits ] [ exponent ], optionally signed *)
RECURSIVE NumVal(_)
NumVal(s) ==
  IF s # <<>> /\ s[1] = 45 THEN NegVal(NumVal(Tail(s)))
  ELSE
  LET a == DigEnd(s, 1)
      hasF == a <= Len(s) /\ s[a] = 46
      b == IF hasF THEN DigEnd(s, a + 1) ELSE a
      ds == DigitsOf(s, 1, a) \o (IF hasF THEN DigitsOf(s, a + 1, b) ELSE <<>>)
      hasE == b <= Len(s) /\ s[b] \in {69, 101}
      sg == IF hasE /\ s[b + 1] \in {43, 45} THEN 1 ELSE 0
      ed == IF hasE THEN ToInt(DigitsOf(s, b + 1 + sg, Len(s) + 1), 1, 0) ELSE 0
      ex == IF hasE /\ s[b + 1] = 45 THEN -ed ELSE ed
  IN NormVal(FALSE, ds, a - 1, ex)

(* end of the number starting at p; decimals that are not finite are not    *)
(* numbers but their integer part may be                                    *)
NumberEnd(s, p) ==
  LET a == DigEnd(s, p)
      hasF == a + 1 <= Len(s) /\ s[a] = 46 /\ IsDigit(s[a + 1])
      b == IF hasF THEN DigEnd(s, a + 1) ELSE a
      e == ExpEnd(s, b)
      isFloat == hasF \/ e.t = "ok"
      end == IF e.t = "ok" THEN e.p ELSE b
      int == IF FitsU64(SubSeq(s, p, a - 1)) THEN [t |-> "ok", p |-> a] ELSE [t |-> "bt", p |-> p]
  IN IF a = p THEN [t |-> "bt", p |-> p]
     ELSE IF e.t = "cut" THEN e
     ELSE IF isFloat /\ FiniteVal(NumVal(SubSeq(s, p, end - 1))) THEN [t |-> "ok", p |-> end]
     ELSE int
=============================================================================
