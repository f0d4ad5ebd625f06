------------------------------- MODULE HclEval -------------------------------
(***************************************************************************)
(* Evaluation of the trees of hcl-rs.                                       *)
(*                                                                         *)
(* Values are [t: null|bool|num|str|arr|obj, v]: numbers as in HclFloat,    *)
(* objects sequences of <<key, value>>.  A context is                       *)
(*   [vars: seq of <<name, value>>, the last one counts,                    *)
(*    fns: seq of [name: seq of texts, ps: seq of types, var: seq of types   *)
(*                 (at most one), impl: echo (tag, positional arguments,     *)
(*                  others) or fail, tag],                                  *)
(*    up, own: trees for error messages (NoTree if there is none)]          *)
(* A result is [t: "ok", v] or [t: "err", k: kind, x: payload, at: tree].    *)
(***************************************************************************)
EXTENDS HclFormat, HclFloat, HclText

NoTree == [k |-> "none"]
VNull == [t |-> "null"]
VBool(b) == [t |-> "bool", v |-> b]
VNum(n) == [t |-> "num", v |-> n]
VStr(s) == [t |-> "str", v |-> s]
VArr(s) == [t |-> "arr", v |-> s]
VObj(s) == [t |-> "obj", v |-> s]

(* values with decimal numbers, as they are written *)
RECURSIVE VIn(_), VOut(_)
VIn(v) ==
  CASE v.t = "num" -> VNum(OfDec(v.v))
    [] v.t = "arr" -> VArr([k \in 1..Len(v.v) |-> VIn(v.v[k])])
    [] v.t = "obj" -> VObj([k \in 1..Len(v.v) |-> <<v.v[k][1], VIn(v.v[k][2])>>])
    [] OTHER -> v
VOut(v) ==
  CASE v.t = "num" -> [t |-> "num", v |-> Shortest(v.v)]
    [] v.t = "arr" -> VArr([k \in 1..Len(v.v) |-> VOut(v.v[k])])
    [] v.t = "obj" -> VObj([k \in 1..Len(v.v) |-> <<v.v[k][1], VOut(v.v[k][2])>>])
    [] OTHER -> v
DisplayCfg == [indent |-> <<SPC, SPC>>, dense |-> FALSE, arrays |-> FALSE, objects |-> FALSE, idents |-> FALSE]
Display(v) == FmtV(VOut(v), 0, DisplayCfg)
NumDisplay(n) == NumText(Shortest(n))

(* Objects are equal whatever the order of their entries is. *)
FindKey(o, key) == {k \in 1..Len(o) : o[k][1] = key}
RECURSIVE VEq(_, _)
VEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "null" -> TRUE
       [] a.t \in {"bool", "num", "str"} -> a.v = b.v
       [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A k \in 1..Len(a.v) : VEq(a.v[k], b.v[k])
       [] a.t = "obj" -> Len(a.v) = Len(b.v) /\ \A k \in 1..Len(a.v) :
                           \E j \in FindKey(b.v, a.v[k][1]) : VEq(a.v[k][2], b.v[j][2])
(* the same, with the same order of entries *)
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "null" -> TRUE
       [] a.t \in {"bool", "num", "str"} -> a.v = b.v
       [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A k \in 1..Len(a.v) : Same(a.v[k], b.v[k])
       [] a.t = "obj" -> Len(a.v) = Len(b.v) /\ \A k \in 1..Len(a.v) :
                           a.v[k][1] = b.v[k][1] /\ Same(a.v[k][2], b.v[k][2])

(* insertion into an object: entries keep their place *)
Put(o, key, v) == LET same == FindKey(o, key) IN
                  IF same = {} THEN Append(o, <<key, v>>)
                  ELSE [o EXCEPT ![CHOOSE j \in same : TRUE] = <<key, v>>]

SmallText(n) == NumDisplay(NInt(n))
Ticked(s) == <<96>> \o s \o <<96>>
Good(v) == [t |-> "ok", v |-> v]
Where(ctx) == IF ctx.up.k # "none" THEN ctx.up ELSE ctx.own
Pay(op, s, vs) == [op |-> op, s |-> s, vs |-> vs]
Bad(ctx, kind, x) == [t |-> "err", k |-> kind, x |-> x, at |-> Where(ctx)]
Unexpected(ctx, v, want) == Bad(ctx, "unexpected", Pay(want, <<>>, <<v>>))

(* The texts of errors; that of a template which is none is the parser's.   *)
KindText(k, x) ==
  LET v(j) == Ticked(Display(x.vs[j])) IN
  CASE k = "var" -> Cp("undefined variable ") \o Ticked(x.s)
    [] k = "func" -> Cp("undefined function ") \o Ticked(x.s)
    [] k = "unexpected" -> Cp("unexpected value ") \o v(1) \o Cp(", expected ") \o Cp(x.op)
    [] k = "index" -> Cp("index out of bounds: ") \o x.s
    [] k = "nokey" -> Cp("no such key: ") \o Ticked(x.s)
    [] k = "keyexists" -> Cp("key ") \o Ticked(x.s) \o Cp(" already exists")
    [] k = "unary" -> Cp("unary operator ") \o Ticked(Cp(x.op)) \o Cp(" is not applicable to ") \o v(1)
    [] k = "binary" -> Cp("binary operator ") \o Ticked(Cp(x.op)) \o Cp(" is not applicable to ") \o v(1) \o Cp(" and ") \o v(2)
    [] k = "call" -> Cp("error calling function ") \o Ticked(x.s) \o Cp(": ") \o x.msg
ErrText(r) == KindText(r.k, r.x) \o (IF r.at.k = "none" THEN <<>> ELSE Cp(" in expression ") \o Ticked(FmtE(r.at, 0, DisplayCfg)))
RECURSIVE ErrLines(_, _, _)
ErrLines(rs, k, acc) == IF k > Len(rs) THEN acc ELSE ErrLines(rs, k + 1, acc \o Cp("- ") \o ErrText(rs[k]) \o <<NL>>)
ErrsText(rs) == IF Len(rs) = 1 THEN ErrText(rs[1])
                ELSE NumDisplay(NInt(Len(rs))) \o Cp(" errors occurred:") \o <<NL>> \o ErrLines(rs, 1, <<>>)

(* contexts below a context *)
Nearest(ctx) == IF ctx.own.k # "none" THEN ctx.own ELSE ctx.up
Under(ctx, e) == [ctx EXCEPT !.up = Nearest(ctx), !.own = e]
Child(ctx, vars) == [ctx EXCEPT !.up = Nearest(ctx), !.own = NoTree, !.vars = @ \o vars]

RECURSIVE LookFrom(_, _, _)
LookFrom(vars, name, k) == IF k = 0 THEN <<>> ELSE IF vars[k][1] = name THEN <<vars[k][2]>> ELSE LookFrom(vars, name, k - 1)
FnNamed(ctx, name) == {k \in 1..Len(ctx.fns) : ctx.fns[k].name = name}
RECURSIVE JoinNs(_, _, _)
JoinNs(ns, k, acc) == IF k > Len(ns) THEN acc ELSE JoinNs(ns, k + 1, acc \o (IF k = 1 THEN <<>> ELSE <<COLON, COLON>>) \o ns[k])

(* Types of parameters [k, of: seq of types]. *)
RECURSIVE Sat(_, _)
Sat(ty, v) ==
  CASE ty.k = "any" -> TRUE
    [] ty.k = "bool" -> v.t = "bool"
    [] ty.k = "number" -> v.t = "num"
    [] ty.k = "string" -> v.t = "str"
    [] ty.k = "array" -> v.t = "arr" /\ \A k \in 1..Len(v.v) : Sat(ty.of[1], v.v[k])
    [] ty.k = "object" -> v.t = "obj" /\ \A k \in 1..Len(v.v) : Sat(ty.of[1], v.v[k][2])
    [] ty.k = "nullable" -> v.t = "null" \/ Sat(ty.of[1], v)
    [] ty.k = "oneof" -> \E k \in 1..Len(ty.of) : Sat(ty.of[k], v)

RECURSIVE TypeText(_), TypeTexts(_, _, _)
TypeText(ty) ==
  LET within(name) == Ticked(Cp(name) \o <<LPAR>> \o TypeText(ty.of[1]) \o <<RPAR>>) IN
  CASE ty.k \in {"array", "object", "nullable"} -> within(ty.k)
    [] ty.k = "oneof" -> IF ty.of = <<>> THEN Ticked(Cp("any")) ELSE TypeTexts(ty.of, 1, <<>>)
    [] OTHER -> Ticked(Cp(ty.k))
TypeTexts(tys, k, acc) ==
  IF k > Len(tys) THEN acc
  ELSE TypeTexts(tys, k + 1, acc \o (IF k = 1 THEN <<>> ELSE IF k = Len(tys) THEN Cp(" or ") ELSE Cp(", ")) \o TypeText(tys[k]))
(* Calls: which argument is refused, and why. *)
FirstBad(f, args) == \* 0 if all are fine
  LET bad == {k \in 1..Len(args) : ~Sat(IF k <= Len(f.ps) THEN f.ps[k] ELSE f.var[1], args[k])} IN
  IF bad = {} THEN 0 ELSE CHOOSE k \in bad : \A j \in bad : k <= j
Call(f, args) == \* [t: ok, v | arity | type, pos | fail, msg: why it failed]
  IF Len(args) < Len(f.ps) \/ (f.var = <<>> /\ Len(args) > Len(f.ps))
  THEN [t |-> "arity", msg |-> Cp("expected ") \o SmallText(Len(f.ps)) \o Cp(" positional arguments, got ") \o SmallText(Len(args))]
  ELSE LET b == FirstBad(f, args)
           n == Len(f.ps)
       IN
       IF b # 0 THEN [t |-> "type", pos |-> b,
                      msg |-> (IF b <= n THEN Cp("expected argument") ELSE Cp("expected variadic argument"))
                              \o Cp(" at position ") \o SmallText(b - 1) \o Cp(" to be of type ")
                              \o TypeText(IF b <= n THEN f.ps[b] ELSE f.var[1]) \o Cp(", got ") \o Ticked(Display(args[b]))]
       ELSE IF f.impl = "fail" THEN [t |-> "fail", msg |-> Cp("no")]
       ELSE
            [t |-> "ok", v |-> VArr(<<VNum(NInt(f.tag)), VArr(SubSeq(args, 1, n)), VArr(SubSeq(args, n + 1, Len(args)))>>)]

-----------------------------------------------------------------------------
(* Templates: which literal is cut where. *)
Strippable(x) == IsWhite(x) /\ x # CR /\ x # NL
RECURSIVE SkipCut(_, _), BackCut(_, _)
SkipCut(s, p) == IF p <= Len(s) /\ Strippable(s[p]) THEN SkipCut(s, p + 1) ELSE p
BackCut(s, p) == IF p >= 1 /\ Strippable(s[p]) THEN BackCut(s, p - 1) ELSE p
CutStart(s) ==
  LET p == SkipCut(s, 1)
      q == IF p < Len(s) /\ s[p] = CR /\ s[p + 1] = NL THEN p + 2
           ELSE IF p <= Len(s) /\ s[p] = NL THEN p + 1 ELSE p
  IN SubSeq(s, q, Len(s))
CutEnd(s) ==
  LET p == BackCut(s, Len(s))
      q == IF p > 1 /\ s[p] = NL /\ s[p - 1] = CR THEN p - 2
           ELSE IF p >= 1 /\ s[p] = NL THEN p - 1 ELSE p
  IN SubSeq(s, 1, q)
(* prev, next: do the neighbours strip what is between them and the literal? *)
StripLit(s, prev, next) == LET a == IF prev THEN CutStart(s) ELSE s IN IF next THEN CutEnd(a) ELSE a
StripsBefore(e) == CASE e.k = "lit" -> FALSE [] e.k = "itp" -> e.st[1] [] e.k = "ifd" -> e.ist[1] [] e.k = "fod" -> e.fst[1]
StripsAfter(e) == CASE e.k = "lit" -> FALSE [] e.k = "itp" -> e.st[2] [] OTHER -> e.nst[2]

IsValue(e) == e.k \in {"null", "bool", "num", "str"}
LitOf(e) == CASE e.k = "null" -> VNull [] e.k = "bool" -> VBool(e.b)
              [] e.k = "num" -> VNum(OfDec(e.val)) [] e.k = "str" -> VStr(e.sv)

RECURSIVE Eval(_, _), EvSeq(_, _, _, _), EvEnts(_, _, _, _), EvTops(_, _, _), EvSplat(_, _, _, _, _),
          EvArgs(_, _, _, _), EvFor(_, _, _, _, _), EvEls(_, _, _, _, _, _), EvFod(_, _, _, _, _)

(* results of a certain type *)
EvBool(e, ctx) == LET r == Eval(e, ctx) IN
                  IF r.t = "ok" /\ r.v.t # "bool" THEN Unexpected(ctx, r.v, "a boolean") ELSE r
EvKey(e, ctx) == LET r == Eval(e, ctx) IN
  IF r.t # "ok" \/ r.v.t = "str" THEN r
  ELSE IF r.v.t = "bool" THEN Good(VStr(IF r.v.v THEN T_true ELSE T_false))
  ELSE IF r.v.t = "num" THEN Good(VStr(NumDisplay(r.v.v)))
  ELSE Unexpected(ctx, r.v, "a string, boolean or number")
(* what a for ranges over: pairs of keys and values *)
EvColl(e, ctx) == LET r == Eval(e, ctx) IN
  IF r.t # "ok" THEN r
  ELSE IF r.v.t = "arr" THEN Good([k \in 1..Len(r.v.v) |-> <<VNum(NInt(k - 1)), r.v.v[k]>>])
  ELSE IF r.v.t = "obj" THEN Good([k \in 1..Len(r.v.v) |-> <<VStr(r.v.v[k][1]), r.v.v[k][2]>>])
  ELSE Unexpected(ctx, r.v, "an array or object")
ItemCtx(e, pair, ctx) ==
  Child(ctx, (IF e.hask THEN <<<<e.kv.id, pair[1]>>>> ELSE <<>>) \o <<<<e.vv.id, pair[2]>>>>)

EvSeq(es, k, ctx, acc) ==
  IF k > Len(es) THEN Good(acc)
  ELSE LET r == Eval(es[k], ctx) IN IF r.t # "ok" THEN r ELSE EvSeq(es, k + 1, ctx, Append(acc, r.v))
EvEnts(es, k, ctx, acc) ==
  IF k > Len(es) THEN Good(acc)
  ELSE LET key == IF es[k].key.k = "id" THEN Good(VStr(es[k].key.id)) ELSE EvKey(es[k].key, ctx)
           r == IF key.t # "ok" THEN key ELSE Eval(es[k].val, ctx)
       IN IF r.t # "ok" THEN r ELSE EvEnts(es, k + 1, ctx, Put(acc, key.v.v, r.v))
EvArgs(e, k, ctx, acc) ==
  IF k > Len(e.args) THEN Good(acc)
  ELSE LET r == Eval(e.args[k], ctx)
           last == e.exp /\ k = Len(e.args)
       IN IF r.t # "ok" THEN r
          ELSE IF last /\ r.v.t # "arr" THEN Unexpected(ctx, r.v, "an array")
          ELSE EvArgs(e, k + 1, ctx, IF last THEN acc \o r.v.v ELSE Append(acc, r.v))

(* access *)
AtIndex(v, n, ctx) ==
  IF v.t # "arr" THEN Unexpected(ctx, v, "an array")
  ELSE IF NCmp(n, NInt(Len(v.v))) >= 0 THEN Bad(ctx, "index", Pay("", NumDisplay(n), <<>>))
  ELSE Good(v.v[(CHOOSE k \in 0..(Len(v.v) - 1) : NInt(k) = n) + 1])
AtKey(v, key, ctx) ==
  IF v.t # "obj" THEN Unexpected(ctx, v, "an object")
  ELSE LET f == FindKey(v.v, key) IN
       IF f = {} THEN Bad(ctx, "nokey", Pay("", key, <<>>)) ELSE Good(v.v[CHOOSE j \in f : TRUE][2])
AtAny(v, ix, ctx) ==
  IF ix.t = "str" THEN AtKey(v, ix.v, ctx)
  ELSE IF ix.t = "num" THEN (IF IsUint(ix.v) THEN AtIndex(v, ix.v, ctx) ELSE Unexpected(ctx, ix, "an unsigned integer"))
  ELSE Unexpected(ctx, ix, "an unsigned integer or string")
RECURSIVE Attrs(_, _)
Attrs(ts, k) == IF k < Len(ts) /\ ts[k + 1].tk = "attr" THEN Attrs(ts, k + 1) ELSE k
EvTops(v, ts, ctx) ==
  IF ts = <<>> THEN Good(v)
  ELSE LET o == Head(ts)
           rest == Tail(ts)
           n == Attrs(rest, 0)
           r == CASE o.tk = "leg" -> AtIndex(v, OfDec(NumVal(o.id)), ctx)
                  [] o.tk = "idx" -> LET ix == Eval(o.ix, ctx) IN IF ix.t # "ok" THEN ix ELSE AtAny(v, ix.v, ctx)
                  [] o.tk = "attr" -> AtKey(v, o.id, ctx)
                  [] o.tk = "asp" -> EvSplat(v, SubSeq(rest, 1, n), 1, ctx, <<>>)
                  [] o.tk = "fsp" -> EvSplat(v, rest, 1, ctx, <<>>)
           more == CASE o.tk = "asp" -> SubSeq(rest, n + 1, Len(rest)) [] o.tk = "fsp" -> <<>> [] OTHER -> rest
       IN IF r.t # "ok" THEN r ELSE EvTops(r.v, more, ctx)
(* applies the operators to every element, from the k-th on; anything else  *)
(* than an array counts as an array with one element, null as an empty one  *)
EvSplat(v, ts, k, ctx, acc) ==
  LET es == IF v.t = "arr" THEN v.v ELSE IF v.t = "null" THEN <<>> ELSE <<v>> IN
  IF k > Len(es) THEN Good(VArr(acc))
  ELSE LET r == EvTops(es[k], ts, ctx) IN IF r.t # "ok" THEN r ELSE EvSplat(v, ts, k + 1, ctx, Append(acc, r.v))

(* operators *)
DoUn(op, v, ctx) ==
  IF op = "!" /\ v.t = "bool" THEN Good(VBool(~v.v))
  ELSE IF op = "-" /\ v.t = "num" THEN Good(VNum(NNeg(v.v)))
  ELSE Bad(ctx, "unary", Pay(op, <<>>, <<v>>))
DoBin(l, op, r, ctx) ==
  LET no == Bad(ctx, "binary", Pay(op, <<>>, <<l, r>>))
      nums == l.t = "num" /\ r.t = "num"
  IN CASE op = "==" -> Good(VBool(VEq(l, r)))
       [] op = "!=" -> Good(VBool(~VEq(l, r)))
       [] op \in {"&&", "||"} -> IF l.t = "bool" /\ r.t = "bool"
                                 THEN Good(VBool(IF op = "&&" THEN l.v /\ r.v ELSE l.v \/ r.v)) ELSE no
       [] ~nums -> no
       [] op = "<" -> Good(VBool(NCmp(l.v, r.v) < 0))
       [] op = "<=" -> Good(VBool(NCmp(l.v, r.v) <= 0))
       [] op = ">" -> Good(VBool(NCmp(l.v, r.v) > 0))
       [] op = ">=" -> Good(VBool(NCmp(l.v, r.v) >= 0))
       [] OTHER -> LET x == Arith(op, l.v, r.v) IN IF x.t = "ok" THEN Good(VNum(x.v)) ELSE no

(* for expressions: the items from the k-th on *)
EvFor(e, coll, k, ctx, acc) ==
  IF k > Len(coll) THEN Good(IF e.haskey THEN VObj(acc) ELSE VArr(acc))
  ELSE LET c == ItemCtx(e, coll[k], ctx)
           cnd == IF e.hasc THEN EvBool(e.cond, c) ELSE Good(VBool(TRUE))
           key == IF e.haskey THEN EvKey(e.ke, c) ELSE Good(VNull)
           val == Eval(e.ve, c)
           found == FindKey(acc, key.v.v)
       IN IF cnd.t # "ok" THEN cnd
          ELSE IF ~cnd.v.v THEN EvFor(e, coll, k + 1, ctx, acc)
          ELSE IF key.t # "ok" THEN key
          ELSE IF val.t # "ok" THEN val
          ELSE IF ~e.haskey THEN EvFor(e, coll, k + 1, ctx, Append(acc, val.v))
          ELSE IF e.grp
          THEN EvFor(e, coll, k + 1, ctx,
                     IF found = {} THEN Append(acc, <<key.v.v, VArr(<<val.v>>)>>)
                     ELSE LET j == CHOOSE x \in found : TRUE
                          IN [acc EXCEPT ![j] = <<key.v.v, VArr(Append(acc[j][2].v, val.v))>>])
          ELSE IF found # {} THEN Bad(c, "keyexists", Pay("", key.v.v, <<>>))
          ELSE EvFor(e, coll, k + 1, ctx, Append(acc, <<key.v.v, val.v>>))

(* Elements of a template: text.  before/after: does what precedes or       *)
(* follows the elements strip?                                              *)
EvEls(els, k, ctx, before, after, acc) ==
  IF k > Len(els) THEN Good(acc)
  ELSE LET e == els[k]
           prev == IF k = 1 THEN before ELSE StripsAfter(els[k - 1])
           next == IF k = Len(els) THEN after ELSE StripsBefore(els[k + 1])
           r == CASE e.k = "lit" -> Good(StripLit(e.lv, prev, next))
                  [] e.k = "itp" -> LET v == Eval(e.e, ctx) IN
                                    IF v.t # "ok" THEN v ELSE Good(IF v.v.t = "str" THEN v.v.v ELSE Display(v.v))
                  [] e.k = "ifd" -> LET c == EvBool(e.ic, ctx) IN
                                    IF c.t # "ok" THEN c
                                    ELSE IF c.v.v THEN EvEls(e.it, 1, ctx, e.ist[2], IF e.hase THEN e.est[1] ELSE e.nst[1], <<>>)
                                    ELSE IF e.hase THEN EvEls(e.et, 1, ctx, e.est[2], e.nst[1], <<>>)
                                    ELSE Good(<<>>)
                  [] e.k = "fod" -> LET c == EvColl(e.coll, ctx) IN
                                    IF c.t # "ok" THEN c ELSE EvFod(e, c.v, 1, ctx, <<>>)
       IN IF r.t # "ok" THEN r ELSE EvEls(els, k + 1, ctx, before, after, acc \o r.v)
EvFod(e, coll, k, ctx, acc) ==
  IF k > Len(coll) THEN Good(acc)
  ELSE LET r == EvEls(e.ft, 1, ItemCtx(e, coll[k], ctx), e.fst[2], e.nst[1], <<>>)
       IN IF r.t # "ok" THEN r ELSE EvFod(e, coll, k + 1, ctx, acc \o r.v)

RElsOf(txt) == LET r == ParseNoSpans("tpl", txt, FALSE) IN
               IF r.t = "ok" THEN [t |-> "ok", v |-> REls(r.v.els)] ELSE [t |-> "no"]

Eval(e, ctx0) ==
  IF IsValue(e) THEN Good(LitOf(e))
  ELSE
  LET ctx == Under(ctx0, e)
      as(r, V(_)) == IF r.t = "ok" THEN Good(V(r.v)) ELSE r
  IN
  CASE e.k = "var" -> LET f == LookFrom(ctx.vars, e.id, Len(ctx.vars)) IN
                      IF f = <<>> THEN Bad(ctx, "var", Pay("", e.id, <<>>)) ELSE Good(f[1])
    [] e.k = "arr" -> as(EvSeq(e.items, 1, ctx, <<>>), VArr)
    [] e.k = "obj" -> as(EvEnts(e.ents, 1, ctx, <<>>), VObj)
    [] e.k \in {"tpl", "hd"} ->
         LET p == RElsOf(e.txt) IN
         IF p.t # "ok" THEN [Bad(ctx, "msg", Pay("", <<>>, <<>>)) EXCEPT !.at = NoTree]
         ELSE IF Len(p.v) = 1 /\ p.v[1].k = "itp" THEN Eval(p.v[1].e, ctx)
         ELSE as(EvEls(p.v, 1, ctx, FALSE, FALSE, <<>>), VStr)
    [] e.k = "par" -> Eval(e.e, ctx)
    [] e.k = "trv" -> LET r == Eval(e.e, ctx) IN IF r.t # "ok" THEN r ELSE EvTops(r.v, e.tops, ctx)
    [] e.k = "fn" ->
         LET name == [k \in 1..(Len(e.ns) + 1) |-> IF k <= Len(e.ns) THEN e.ns[k].id ELSE e.name.id]
             fs == FnNamed(ctx, name)
         IN IF fs = {} THEN Bad(ctx, "func", Pay("", JoinNs(name, 1, <<>>), <<>>))
            ELSE LET args == EvArgs(e, 1, ctx, <<>>)
                     r == Call(ctx.fns[CHOOSE k \in fs : \A j \in fs : j <= k], args.v)
                 IN IF args.t # "ok" THEN args
                    ELSE IF r.t = "ok" THEN r
                    ELSE Bad(ctx, "call", [op |-> r.t, s |-> JoinNs(name, 1, <<>>), msg |-> r.msg,
                                           vs |-> IF r.t = "type" THEN <<VNum(NInt(r.pos - 1))>> ELSE <<>>])
    [] e.k = "cond" -> LET c == EvBool(e.ce, ctx) IN
                       IF c.t # "ok" THEN c ELSE IF c.v.v THEN Eval(e.te, ctx) ELSE Eval(e.fe, ctx)
    [] e.k = "un" -> LET r == Eval(e.e, ctx) IN IF r.t # "ok" THEN r ELSE DoUn(e.uop, r.v, ctx)
    [] e.k = "bin" -> LET l == Eval(e.l, ctx)
                          r == Eval(e.r, ctx)
                      IN IF l.t # "ok" THEN l ELSE IF r.t # "ok" THEN r ELSE DoBin(l.v, e.op.o, r.v, ctx)
    [] e.k = "for" -> LET c == EvColl(e.coll, ctx) IN IF c.t # "ok" THEN c ELSE EvFor(e, c.v, 1, ctx, <<>>)

-----------------------------------------------------------------------------
(* Values as expressions; bodies. *)
RECURSIVE ToR(_)
NumR(n) == [NumE([bare |-> TRUE], <<48>>) EXCEPT !.val = Shortest(n)]
ToR(v) ==
  CASE v.t = "null" -> NullE
    [] v.t = "bool" -> BoolE(v.v)
    [] v.t = "num" -> NumR(v.v)
    [] v.t = "str" -> StrE(v.v)
    [] v.t = "arr" -> ArrE([k \in 1..Len(v.v) |-> ToR(v.v[k])], FALSE, <<>>)
    [] v.t = "obj" -> ObjE([k \in 1..Len(v.v) |-> Ent(StrE(v.v[k][1]), "=", ToR(v.v[k][2]), "none")], <<>>)
RECURSIVE EvBody(_, _, _, _)
EvBody(ss, k, ctx, acc) ==
  IF k > Len(ss) THEN Good(acc)
  ELSE LET s == ss[k]
           r == IF s.k = "attr" THEN Eval(s.val, ctx) ELSE EvBody(s.body.ss, 1, ctx, <<>>)
       IN IF r.t # "ok" THEN r
          ELSE EvBody(ss, k + 1, ctx,
                      Append(acc, IF s.k = "attr" THEN [s EXCEPT !.val = ToR(r.v)] ELSE [s EXCEPT !.body.ss = r.v]))
EvalNode(n, ctx) == \* of a body: its structures; of a template: text
  CASE n.k = "body" -> EvBody(n.ss, 1, ctx, <<>>)
    [] n.k = "template" -> EvEls(n.els, 1, ctx, FALSE, FALSE, <<>>)
    [] OTHER -> Eval(n, ctx)

-----------------------------------------------------------------------------
(* Evaluation in place: everything that can be evaluated is replaced by its  *)
(* value, the errors of everything else are collected.  [n, errs]           *)
In(n, errs) == [n |-> n, errs |-> errs]
RECURSIVE InE(_, _), InSeq(_, _, _, _, _), InEnts(_, _, _, _, _), InTops(_, _, _, _, _), InEls(_, _, _, _, _), InSs(_, _, _, _, _)
InSeq(es, k, ctx, acc, errs) ==
  IF k > Len(es) THEN In(acc, errs)
  ELSE LET r == InE(es[k], ctx) IN InSeq(es, k + 1, ctx, Append(acc, r.n), errs \o r.errs)
(* entries whose keys become equal: the last value counts *)
MergeEnt(ents, x) ==
  LET same == {j \in 1..Len(ents) : ents[j].key = x.key} IN
  IF same = {} THEN Append(ents, x) ELSE [ents EXCEPT ![CHOOSE j \in same : TRUE].val = x.val]
InEnts(es, k, ctx, acc, errs) ==
  IF k > Len(es) THEN In(acc, errs)
  ELSE LET key == IF es[k].key.k = "id" THEN In(es[k].key, <<>>) ELSE InE(es[k].key, ctx)
           val == InE(es[k].val, ctx)
       IN InEnts(es, k + 1, ctx, MergeEnt(acc, [es[k] EXCEPT !.key = key.n, !.val = val.n]), errs \o key.errs \o val.errs)
InTops(ts, k, ctx, acc, errs) ==
  IF k > Len(ts) THEN In(acc, errs)
  ELSE IF ts[k].tk # "idx" THEN InTops(ts, k + 1, ctx, Append(acc, ts[k]), errs)
  ELSE LET r == InE(ts[k].ix, ctx) IN InTops(ts, k + 1, ctx, Append(acc, [ts[k] EXCEPT !.ix = r.n]), errs \o r.errs)
InNested(e, ctx) ==
  CASE e.k = "arr" -> LET r == InSeq(e.items, 1, ctx, <<>>, <<>>) IN In([e EXCEPT !.items = r.n], r.errs)
    [] e.k = "obj" -> LET r == InEnts(e.ents, 1, ctx, <<>>, <<>>) IN In([e EXCEPT !.ents = r.n], r.errs)
    [] e.k = "trv" -> LET r == InTops(e.tops, 1, ctx, <<>>, <<>>) IN In([e EXCEPT !.tops = r.n], r.errs)
    [] e.k = "fn" -> LET r == InSeq(e.args, 1, ctx, <<>>, <<>>) IN In([e EXCEPT !.args = r.n], r.errs)
    [] e.k \in {"par", "un"} -> LET r == InE(e.e, ctx) IN In([e EXCEPT !.e = r.n], r.errs)
    [] e.k = "bin" -> LET l == InE(e.l, ctx) r == InE(e.r, ctx) IN In([e EXCEPT !.l = l.n, !.r = r.n], l.errs \o r.errs)
    [] e.k = "for" -> LET r == InE(e.coll, ctx) IN In([e EXCEPT !.coll = r.n], r.errs)
    [] e.k = "cond" ->
         LET c == EvBool(e.ce, ctx) IN
         IF c.t # "ok" THEN In(e, <<c>>)
         ELSE IF c.v.v THEN LET r == InE(e.te, ctx) IN In([e EXCEPT !.ce = BoolE(TRUE), !.te = r.n], r.errs)
         ELSE LET r == InE(e.fe, ctx) IN In([e EXCEPT !.ce = BoolE(FALSE), !.fe = r.n], r.errs)
    [] OTHER -> In(e, <<>>)
InE(e, ctx) ==
  IF IsValue(e) THEN In(e, <<>>)
  ELSE LET x == InNested(e, Under(ctx, e)) IN
       IF x.errs # <<>> THEN x
       ELSE LET r == Eval(x.n, ctx) IN IF r.t = "ok" THEN In(ToR(r.v), <<>>) ELSE In(x.n, <<r>>)
InEls(els, k, ctx, acc, errs) ==
  IF k > Len(els) THEN In(acc, errs)
  ELSE LET e == els[k]
           x == CASE e.k = "lit" -> In(e, <<>>)
                  [] e.k = "itp" -> LET r == InE(e.e, ctx) IN In([e EXCEPT !.e = r.n], r.errs)
                  [] e.k = "ifd" -> LET c == InE(e.ic, ctx)
                                        a == InEls(e.it, 1, ctx, <<>>, <<>>)
                                        b == InEls(e.et, 1, ctx, <<>>, <<>>)
                                    IN In([e EXCEPT !.ic = c.n, !.it = a.n, !.et = b.n], c.errs \o a.errs \o b.errs)
                  [] e.k = "fod" -> LET c == InE(e.coll, ctx) IN In([e EXCEPT !.coll = c.n], c.errs)
       IN InEls(els, k + 1, ctx, Append(acc, x.n), errs \o x.errs)
InSs(ss, k, ctx, acc, errs) ==
  IF k > Len(ss) THEN In(acc, errs)
  ELSE LET s == ss[k]
           x == IF s.k = "attr" THEN LET r == InE(s.val, ctx) IN In([s EXCEPT !.val = r.n], r.errs)
                ELSE LET r == InSs(s.body.ss, 1, ctx, <<>>, <<>>) IN In([s EXCEPT !.body.ss = r.n], r.errs)
       IN InSs(ss, k + 1, ctx, Append(acc, x.n), errs \o x.errs)
InNode(n, ctx) ==
  CASE n.k = "body" -> LET r == InSs(n.ss, 1, ctx, <<>>, <<>>) IN In([n EXCEPT !.ss = r.n], r.errs)
    [] n.k = "template" -> LET r == InEls(n.els, 1, ctx, <<>>, <<>>) IN In([n EXCEPT !.els = r.n], r.errs)
    [] OTHER -> InE(n, ctx)
=============================================================================
