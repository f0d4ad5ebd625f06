------------------------------- MODULE HclMacro -------------------------------
(***************************************************************************)
(* The macros of hcl-rs, which read trees off Rust tokens: what an           *)
(* invocation stands for.  Token trees are                                   *)
(*   [t: "id", s]       a word                  [t: "eq"], [t: "comma"]       *)
(*   [t: "lit", v]      a literal               [t: "neg"] a minus            *)
(*   [t: "rust", one, v] an expression (a single token?) of Rust             *)
(*   [t: "par", v]      an expression in parentheses                         *)
(*   [t: "arr", ts], [t: "obj", ts]  tokens in brackets or braces            *)
(* where v is the value of the expression, of the kinds null, bool, num,      *)
(* str, arr and (a variable of HCL) var.  Results are [ok, v]; what is not    *)
(* ok is not specified (mostly, it does not compile).                         *)
(***************************************************************************)
EXTENDS HclIdent

Bad == [ok |-> FALSE]
Good(v) == [ok |-> TRUE, v |-> v]

RECURSIVE TreeOfV(_)
TreeOfV(v) ==
  CASE v.t = "null" -> NullE
    [] v.t = "bool" -> BoolE(v.v)
    [] v.t = "num" -> [NumE([bare |-> TRUE], <<48>>) EXCEPT !.val = v.v]
    [] v.t = "str" -> StrE(v.v)
    [] v.t = "var" -> VarE(v.v)
    [] v.t = "arr" -> ArrE([k \in 1..Len(v.v) |-> TreeOfV(v.v[k])], FALSE, <<>>)
NegV(v) == IF v.v.digs = <<>> THEN v ELSE [v EXCEPT !.v.neg = ~@]
Clean(s) == Sanitized(s, LAMBDA k : IsIdStart(s[k]), LAMBDA k : IsIdCont(s[k]))

(* Trees (m = "expr") and values (m = "value") are read alike. *)
RECURSIVE HasVar(_)
HasVar(v) == v.t = "var" \/ (v.t = "arr" /\ \E k \in 1..Len(v.v) : HasVar(v.v[k]))
LeafM(m, v) == IF m = "expr" THEN Good(TreeOfV(v)) ELSE IF HasVar(v) THEN Bad ELSE Good(v)
ArrM(m, xs) == IF m = "expr" THEN ArrE(xs, FALSE, <<>>) ELSE [t |-> "arr", v |-> xs]
ObjM(m, ps) == IF m = "expr" THEN ObjE([k \in 1..Len(ps) |-> Ent(ps[k][1], "=", ps[k][2], "none")], <<>>)
               ELSE [t |-> "obj", v |-> ps]
KeyM(m, v) == IF m = "expr" THEN Good(TreeOfV(v)) ELSE IF v.t = "str" THEN Good(v.v) ELSE Bad
(* A key which is given again gets another value but keeps its place. *)
PutM(ps, k, v) ==
  LET at == {j \in 1..Len(ps) : ps[j][1] = k} IN
  IF at = {} THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![CHOOSE j \in at : TRUE] = <<k, v>>]

TokIs(ts, p, t) == p <= Len(ts) /\ ts[p].t = t
IsWord(x) == x.t = "id" /\ x.s \in Words
WordV(x) == IF x.s = T_null THEN [t |-> "null"] ELSE [t |-> "bool", v |-> x.s = T_true]
(* The end of an expression of Rust: what would go on with it may not follow. *)
(* In objects, there may be no comma, but behind expressions of several tokens. *)
Comma(ts, p) == TokIs(ts, p, "comma")
EndsExpr(ts, p, inobj) == Comma(ts, p) \/ (~inobj /\ p > Len(ts))
EndsToken(ts, p, inobj) == Comma(ts, p) \/ p > Len(ts) \/ (inobj /\ ts[p].t \in {"id", "lit"})

RECURSIVE ExprAt(_, _, _, _), ArrAt(_, _, _, _, _), ObjAt(_, _, _, _)
(* the expression at p, in an object or elsewhere: [ok, v, n], n tokens long *)
ExprAt(m, ts, p, inobj) ==
  IF p > Len(ts) THEN Bad
  ELSE LET x == ts[p]
           of(r, n) == IF r.ok THEN [ok |-> TRUE, v |-> r.v, n |-> n] ELSE Bad IN
  CASE IsWord(x) -> of(LeafM(m, WordV(x)), 1)
    [] x.t = "arr" -> of(ArrAt(m, x.ts, 1, <<>>, FALSE), 1)
    [] x.t = "obj" -> of(ObjAt(m, x.ts, 1, <<>>), 1)
    [] x.t \in {"lit", "par"} \/ (x.t = "rust" /\ x.one) ->
         IF EndsToken(ts, p + 1, inobj) THEN of(LeafM(m, x.v), 1) ELSE Bad
    [] x.t = "rust" -> IF EndsExpr(ts, p + 1, inobj) THEN of(LeafM(m, x.v), 1) ELSE Bad
    [] x.t = "neg" -> IF TokIs(ts, p + 1, "lit") /\ ts[p + 1].v.t = "num" /\ EndsExpr(ts, p + 2, inobj)
                      THEN of(LeafM(m, NegV(ts[p + 1].v)), 2) ELSE Bad
    [] OTHER -> Bad
(* elements are separated by commas, the last may be followed by one *)
ArrAt(m, ts, p, acc, sep) ==
  IF p > Len(ts) THEN Good(ArrM(m, acc))
  ELSE IF sep THEN IF ts[p].t = "comma" THEN ArrAt(m, ts, p + 1, acc, FALSE) ELSE Bad
  ELSE LET e == ExprAt(m, ts, p, FALSE) IN
       IF e.ok THEN ArrAt(m, ts, p + e.n, Append(acc, e.v), TRUE) ELSE Bad
(* items may be separated by commas *)
ObjAt(m, ts, p, acc) ==
  IF p > Len(ts) THEN Good(ObjM(m, acc))
  ELSE LET x == ts[p]
           neg == x.t = "neg" /\ TokIs(ts, p + 1, "lit") /\ ts[p + 1].v.t = "num"
           key == CASE x.t = "id" -> Good(IF m = "expr" THEN Id0(x.s) ELSE x.s)
                    [] x.t \in {"lit", "par"} -> KeyM(m, x.v)
                    [] neg -> KeyM(m, NegV(ts[p + 1].v))
                    [] OTHER -> Bad
           q == IF neg THEN p + 2 ELSE p + 1
           e == ExprAt(m, ts, q + 1, TRUE) IN
       IF ~key.ok \/ ~TokIs(ts, q, "eq") \/ ~e.ok THEN Bad
       ELSE LET r == q + 1 + e.n IN
            ObjAt(m, ts, IF TokIs(ts, r, "comma") THEN r + 1 ELSE r, PutM(acc, key.v, e.v))
ExprM(m, ts) == LET e == ExprAt(m, ts, 1, FALSE) IN IF e.ok /\ e.n = Len(ts) THEN Good(e.v) ELSE Bad

(* identifiers of structures *)
NameAt(ts, p) ==
  IF TokIs(ts, p, "id") THEN Good(ts[p].s)
  ELSE IF TokIs(ts, p, "par") /\ ts[p].v.t = "str" THEN Good(Clean(ts[p].v.v)) ELSE Bad
LabelAt(ts, p) ==
  IF TokIs(ts, p, "id") THEN Good(LabelI(ts[p].s))
  ELSE IF p <= Len(ts) /\ ts[p].t \in {"par", "lit"} /\ ts[p].v.t = "str" THEN Good(LabelS(ts[p].v.v)) ELSE Bad

RECURSIVE StructsAt(_, _, _), LabelsAt(_, _, _), BodyM(_)
(* labels from p on up to a body: [ok, v: labels, p: of the body] *)
LabelsAt(ts, p, acc) ==
  IF TokIs(ts, p, "obj") THEN [ok |-> TRUE, v |-> acc, p |-> p]
  ELSE LET l == LabelAt(ts, p) IN IF l.ok THEN LabelsAt(ts, p + 1, Append(acc, l.v)) ELSE Bad
(* the block at p: [ok, v, p: behind it] *)
BlockAt(ts, p) ==
  LET n == NameAt(ts, p) IN
  IF ~n.ok THEN Bad
  ELSE LET l == LabelsAt(ts, p + 1, <<>>) IN
       IF ~l.ok THEN Bad
       ELSE LET b == BodyM(ts[l.p].ts) IN
            IF b.ok THEN [ok |-> TRUE, v |-> BlockS(Id0(n.v), l.v, b.v), p |-> l.p + 1] ELSE Bad
(* In a body the expression of an attribute is a single token tree. *)
StructsAt(ts, p, acc) ==
  IF p > Len(ts) THEN Good(acc)
  ELSE IF TokIs(ts, p + 1, "eq") THEN
    LET n == NameAt(ts, p)
        e == IF p + 2 <= Len(ts) THEN ExprM("expr", <<ts[p + 2]>>) ELSE Bad IN
    IF n.ok /\ e.ok THEN StructsAt(ts, p + 3, Append(acc, AttrS(Id0(n.v), e.v))) ELSE Bad
  ELSE LET b == BlockAt(ts, p) IN IF b.ok THEN StructsAt(ts, b.p, Append(acc, b.v)) ELSE Bad
Braced(ts) == Len(ts) = 1 /\ ts[1].t = "obj"
BodyM(ts) ==
  IF Braced(ts) THEN BodyM(ts[1].ts)
  ELSE LET r == StructsAt(ts, 1, <<>>) IN IF r.ok THEN Good(BodyN(r.v, FALSE, FALSE)) ELSE Bad

RECURSIVE AttrM(_), BlockM(_), StructM(_)
AttrM(ts) ==
  IF Braced(ts) THEN AttrM(ts[1].ts)
  ELSE LET n == NameAt(ts, 1)
           e == ExprM("expr", SubSeq(ts, 3, Len(ts))) IN
       IF n.ok /\ TokIs(ts, 2, "eq") /\ e.ok THEN Good(AttrS(Id0(n.v), e.v)) ELSE Bad
BlockM(ts) ==
  IF Braced(ts) THEN BlockM(ts[1].ts)
  ELSE LET b == BlockAt(ts, 1) IN IF b.ok /\ b.p = Len(ts) + 1 THEN Good(b.v) ELSE Bad
StructM(ts) ==
  IF Braced(ts) THEN StructM(ts[1].ts)
  ELSE IF TokIs(ts, 2, "eq") THEN AttrM(ts) ELSE BlockM(ts)

Kinds == {"body", "structure", "attribute", "block", "expression", "value"}
Macro(kind, ts) ==
  CASE kind = "body" -> BodyM(ts)
    [] kind = "structure" -> StructM(ts)
    [] kind = "attribute" -> AttrM(ts)
    [] kind = "block" -> BlockM(ts)
    [] kind = "expression" -> ExprM("expr", ts)
    [] kind = "value" -> ExprM("value", ts)
=============================================================================
