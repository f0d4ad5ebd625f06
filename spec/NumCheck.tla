------------------------------- MODULE NumCheck -------------------------------
(* Observations of numbers: [k: "pair", a, b: texts, res: op -> text or      *)
(* "panic", ...], [k: "lit", s, ...], [k: "f64", ...].                      *)
EXTENDS HclFloat, HclParser, HclEncode, Obs

C == Cases[i]
Text(n) == NumText(Shortest(n))
Of(txt) == OfDec(NumVal(txt))
(* what the accessors say *)
FactsOk(f, n) ==
  /\ Why(<<"text", f.txt, Text(n)>>, f.txt = Text(n))
  /\ Why(<<"ints", f>>, f.u64 = (IF IsUint(n) THEN <<Text(n)>> ELSE <<>>))
  /\ Why(<<"ints", f>>, f.i64 = (IF IsSint(n) THEN <<Text(n)>> ELSE <<>>))
  /\ Why(<<"kind", f>>, /\ f.isf = ~IsInt(n)
                        /\ f.isu = (IsInt(n) /\ ~n.neg)
                        /\ f.isi = (IsInt(n) /\ n.neg))
  /\ Why(<<"f64", f>>, f.f64 = [neg |-> RoundN(n).neg, m |-> RoundN(n).m, e |-> RoundN(n).e])
  /\ Why(<<"again", f>>, f.again)

PairOk ==
  LET a == Of(C.a)  b == Of(C.b)  c == NCmp(a, b) IN
  /\ FactsOk(C.fa, a)
  /\ \A op \in {"+", "-", "*", "/", "%"} :
       LET x == Arith(op, a, b)  o == C.res[op]  d == C.ops[op] IN
       /\ Why(<<op, o, x>>, IF x.t = "err" THEN o.r = "err" ELSE o.r = "ok" /\ Of(o.v) = x.v)
       /\ Why(<<op, d, x>>, x.t = "ok" => d = o)
  /\ Why(<<"neg", C.neg>>, Of(C.neg) = NNeg(a))
  /\ Why(<<"cmp", C.cmp>>, C.cmp = c)
  /\ Why(<<"hcl", C.hcl>>, C.hcl = <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>)
  /\ Why(<<"hash">>, c = 0 => C.hash)

(* literals of the native syntax *)
LitOk ==
  LET p == ParseNoSpans("expr", C.s, TRUE) IN
  IF p.t # "ok" THEN C.r = "err"
  ELSE LET intSyntax == \A k \in 1..Len(C.s) : IsDigit(C.s[k]) \/ C.s[k] = 45
           d == NumVal(C.s)
           n == IF intSyntax THEN OfDec(d) ELSE Canon(RoundDec(d))
       IN C.r = "ok" /\ FactsOk(C.fa, n)
F64Ok == LET n == Num(C.neg, Trim(C.m), C.e) IN FactsOk(C.fa, n)

Inv == Report(CASE C.k = "pair" -> PairOk [] C.k = "lit" -> LitOk [] C.k = "f64" -> F64Ok)
=============================================================================
