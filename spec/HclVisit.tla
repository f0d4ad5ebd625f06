------------------------------ MODULE HclVisit -------------------------------
(***************************************************************************)
(* What visitors see of the trees of HclParser: one event per node, before   *)
(* those of its parts, which follow in the order of the text (operators of   *)
(* unary operations and traversals included).  An event is                    *)
(*   [m: method, d: depth, x: leaf contents as a sequence of integers].      *)
(* A mutable visitor (mut) gets no access to keys of attributes and objects. *)
(***************************************************************************)
EXTENDS HclParser

Ev(m, d, x) == <<[m |-> m, d |-> d, x |-> x]>>
VId(id, d) == Ev("ident", d, id.id)
NumX(v) == <<IF v.neg THEN 1 ELSE 0, v.x>> \o v.digs
OpX(o) == CASE o = "!" -> <<33>> [] o = "-" -> <<45>> [] o = "+" -> <<43>> [] o = "*" -> <<42>> [] o = "/" -> <<47>>
            [] o = "%" -> <<37>> [] o = "==" -> <<61, 61>> [] o = "!=" -> <<33, 61>> [] o = "<" -> <<60>>
            [] o = "<=" -> <<60, 61>> [] o = ">" -> <<62>> [] o = ">=" -> <<62, 61>> [] o = "&&" -> <<38, 38>>
            [] o = "||" -> <<124, 124>>

RECURSIVE VE(_, _, _), VExprs(_, _, _, _, _), VEnts(_, _, _, _, _), VTops(_, _, _, _, _), VEls(_, _, _, _, _), VIds(_, _, _, _)
VExprs(es, k, d, mut, acc) == IF k > Len(es) THEN acc ELSE VExprs(es, k + 1, d, mut, acc \o VE(es[k], d, mut))
VIds(ids, k, d, acc) == IF k > Len(ids) THEN acc ELSE VIds(ids, k + 1, d, acc \o VId(ids[k], d))
VKey(k, d, mut) ==
  IF mut THEN Ev("object_key", d, IF k.k = "id" THEN k.id ELSE <<>>)
  ELSE Ev("object_key", d, <<>>) \o (IF k.k = "id" THEN VId(k, d + 1) ELSE VE(k, d + 1, mut))
VEnts(es, k, d, mut, acc) ==
  IF k > Len(es) THEN acc
  ELSE VEnts(es, k + 1, d, mut,
             acc \o Ev("object_item", d, <<>>) \o VKey(es[k].key, d + 1, mut)
                 \o Ev("object_value", d + 1, <<>>) \o VE(es[k].val, d + 2, mut))
VTops(ts, k, d, mut, acc) ==
  IF k > Len(ts) THEN acc
  ELSE VTops(ts, k + 1, d, mut,
             acc \o Ev("traversal_operator", d, <<>>)
                 \o CASE ts[k].tk \in {"asp", "fsp"} -> Ev("splat", d + 1, <<>>)
                      [] ts[k].tk = "attr" -> Ev("ident", d + 1, ts[k].id)
                      [] ts[k].tk = "leg" -> Ev("u64", d + 1, ts[k].id)
                      [] ts[k].tk = "idx" -> VE(ts[k].ix, d + 1, mut))
VKind(e, d, mut) ==
  CASE e.k = "null" -> Ev("null", d, <<>>)
    [] e.k = "bool" -> Ev("bool", d, <<IF e.b THEN 1 ELSE 0>>)
    [] e.k = "num" -> Ev("number", d, NumX(e.val))
    [] e.k = "str" -> Ev("string", d, e.sv)
    [] e.k = "var" -> VId(e, d)
    [] e.k = "arr" -> Ev("array", d, <<>>) \o VExprs(e.items, 1, d + 1, mut, <<>>)
    [] e.k = "obj" -> Ev("object", d, <<>>) \o VEnts(e.ents, 1, d + 1, mut, <<>>)
    [] e.k = "tpl" -> Ev("string_template", d, <<>>) \o VEls(e.els, 1, d + 1, mut, <<>>)
    [] e.k = "hd" -> Ev("heredoc_template", d, <<>>) \o Ev("template", d + 1, <<>>) \o VEls(e.els, 1, d + 2, mut, <<>>)
    [] e.k = "par" -> Ev("parenthesis", d, <<>>) \o VE(e.e, d + 1, mut)
    [] e.k = "cond" -> Ev("conditional", d, <<>>) \o VE(e.ce, d + 1, mut) \o VE(e.te, d + 1, mut) \o VE(e.fe, d + 1, mut)
    [] e.k = "fn" -> Ev("func_call", d, <<>>) \o Ev("func_name", d + 1, <<>>) \o VIds(e.ns, 1, d + 2, <<>>) \o VId(e.name, d + 2)
                     \o Ev("func_args", d + 1, <<>>) \o VExprs(e.args, 1, d + 2, mut, <<>>)
    [] e.k = "trv" -> Ev("traversal", d, <<>>) \o VE(e.e, d + 1, mut) \o VTops(e.tops, 1, d + 1, mut, <<>>)
    [] e.k = "un" -> Ev("unary_op", d, <<>>) \o Ev("unary_operator", d + 1, OpX(e.uop)) \o VE(e.e, d + 1, mut)
    [] e.k = "bin" -> Ev("binary_op", d, <<>>) \o VE(e.l, d + 1, mut) \o Ev("binary_operator", d + 1, OpX(e.op.o)) \o VE(e.r, d + 1, mut)
    [] e.k = "for" -> Ev("for_expr", d, <<>>) \o Ev("for_intro", d + 1, <<>>)
                      \o (IF e.hask THEN VId(e.kv, d + 2) ELSE <<>>) \o VId(e.vv, d + 2) \o VE(e.coll, d + 2, mut)
                      \o (IF e.haskey THEN VE(e.ke, d + 1, mut) ELSE <<>>) \o VE(e.ve, d + 1, mut)
                      \o (IF e.hasc THEN Ev("for_cond", d + 1, <<>>) \o VE(e.cond, d + 2, mut) ELSE <<>>)
VE(e, d, mut) == Ev("expr", d, <<>>) \o VKind(e, d + 1, mut)
VTpl(els, d, mut) == Ev("template", d, <<>>) \o VEls(els, 1, d + 1, mut, <<>>)
VEls(els, k, d, mut, acc) ==
  IF k > Len(els) THEN acc
  ELSE LET e == els[k] IN
       VEls(els, k + 1, d, mut,
            acc \o Ev("element", d, <<>>)
                \o CASE e.k = "lit" -> Ev("literal", d + 1, e.lv)
                     [] e.k = "itp" -> Ev("interpolation", d + 1, <<>>) \o VE(e.e, d + 2, mut)
                     [] e.k = "ifd" ->
                          Ev("directive", d + 1, <<>>) \o Ev("if_directive", d + 2, <<>>)
                          \o Ev("if_template_expr", d + 3, <<>>) \o VE(e.ic, d + 4, mut) \o VTpl(e.it, d + 4, mut)
                          \o (IF e.hase THEN Ev("else_template_expr", d + 3, <<>>) \o VTpl(e.et, d + 4, mut) ELSE <<>>)
                          \o Ev("endif_template_expr", d + 3, <<>>)
                     [] e.k = "fod" ->
                          Ev("directive", d + 1, <<>>) \o Ev("for_directive", d + 2, <<>>)
                          \o Ev("for_template_expr", d + 3, <<>>) \o (IF e.hask THEN VId(e.kv, d + 4) ELSE <<>>)
                          \o VId(e.vv, d + 4) \o VE(e.coll, d + 4, mut) \o VTpl(e.ft, d + 4, mut)
                          \o Ev("endfor_template_expr", d + 3, <<>>))
RECURSIVE VSs(_, _, _, _, _), VLabels(_, _, _, _)
VLabels(ls, k, d, acc) ==
  IF k > Len(ls) THEN acc
  ELSE VLabels(ls, k + 1, d, acc \o Ev("block_label", d, <<>>)
                                 \o (IF ls[k].k = "lstr" THEN Ev("string", d + 1, ls[k].lsv) ELSE VId(ls[k], d + 1)))
VSs(ss, k, d, mut, acc) ==
  IF k > Len(ss) THEN acc
  ELSE LET s == ss[k] IN
       VSs(ss, k + 1, d, mut,
           acc \o Ev("structure", d, <<>>)
               \o (IF s.k = "attr"
                   THEN (IF mut THEN Ev("attr", d + 1, s.key.id) ELSE Ev("attr", d + 1, <<>>) \o VId(s.key, d + 2))
                        \o VE(s.val, d + 2, mut)
                   ELSE Ev("block", d + 1, <<>>) \o VId(s.bid, d + 2) \o VLabels(s.labels, 1, d + 2, <<>>)
                        \o Ev("body", d + 2, <<>>) \o VSs(s.body.ss, 1, d + 3, mut, <<>>)))
Events(n, mut) ==
  CASE n.k = "body" -> Ev("body", 0, <<>>) \o VSs(n.ss, 1, 1, mut, <<>>)
    [] n.k = "template" -> VTpl(n.els, 0, mut)
    [] OTHER -> VE(n, 0, mut)

(* A method which does not visit the parts of its node, called for the n-th  *)
(* event, hides exactly what is below.                                       *)
RECURSIVE Prune(_, _, _, _)
Prune(es, n, k, acc) ==
  IF k > Len(es) THEN acc
  ELSE IF k > n /\ es[k].d > es[n].d /\ \A j \in (n + 1)..k : es[j].d > es[n].d
  THEN Prune(es, n, k + 1, acc) ELSE Prune(es, n, k + 1, Append(acc, es[k]))
Cutoff(es, n) == IF n > Len(es) THEN es ELSE Prune(es, n, 1, <<>>)

-----------------------------------------------------------------------------
(* What becomes of a tree if every leaf a mutable visitor reaches is changed. *)
Longer(s, c) == Append(s, c)
CId(id) == [id EXCEPT !.id = Longer(id.id, 95)]
Seven == [neg |-> FALSE, digs |-> <<7>>, x |-> 1]
RECURSIVE ChgE(_), CEl(_)
CEls(els) == [k \in 1..Len(els) |-> CEl(els[k])]
CSeq(es) == [k \in 1..Len(es) |-> ChgE(es[k])]
CTop(o) == CASE o.tk = "attr" -> CId(o)
             [] o.tk = "leg" -> [o EXCEPT !.id = <<55>>]
             [] o.tk = "idx" -> [o EXCEPT !.ix = ChgE(o.ix)]
             [] OTHER -> o
ChgE(e) ==
  CASE e.k = "bool" -> [e EXCEPT !.b = ~e.b]
    [] e.k = "num" -> [e EXCEPT !.val = Seven, !.repr = <<>>]
    [] e.k = "str" -> [e EXCEPT !.sv = Longer(e.sv, BANG)]
    [] e.k = "var" -> CId(e)
    [] e.k = "arr" -> [e EXCEPT !.items = CSeq(e.items)]
    [] e.k = "obj" -> [e EXCEPT !.ents = [k \in 1..Len(e.ents) |-> [e.ents[k] EXCEPT !.val = ChgE(e.ents[k].val)]]]
    [] e.k \in {"tpl", "hd"} -> [e EXCEPT !.els = CEls(e.els)]
    [] e.k = "par" -> [e EXCEPT !.e = ChgE(e.e)]
    [] e.k = "cond" -> [e EXCEPT !.ce = ChgE(e.ce), !.te = ChgE(e.te), !.fe = ChgE(e.fe)]
    [] e.k = "fn" -> [e EXCEPT !.ns = [k \in 1..Len(e.ns) |-> CId(e.ns[k])], !.name = CId(e.name), !.args = CSeq(e.args)]
    [] e.k = "trv" -> [e EXCEPT !.e = ChgE(e.e), !.tops = [k \in 1..Len(e.tops) |-> CTop(e.tops[k])]]
    [] e.k = "un" -> [e EXCEPT !.e = ChgE(e.e), !.uop = IF e.uop = "-" THEN "!" ELSE "-"]
    [] e.k = "bin" -> [e EXCEPT !.l = ChgE(e.l), !.r = ChgE(e.r), !.op.o = IF e.op.o = "==" THEN "!=" ELSE "=="]
    [] e.k = "for" -> [e EXCEPT !.kv = IF e.hask THEN CId(e.kv) ELSE e.kv, !.vv = CId(e.vv), !.coll = ChgE(e.coll),
                                !.ke = IF e.haskey THEN ChgE(e.ke) ELSE e.ke, !.ve = ChgE(e.ve),
                                !.cond = IF e.hasc THEN ChgE(e.cond) ELSE e.cond]
    [] OTHER -> e
CEl(e) ==
  CASE e.k = "lit" -> [e EXCEPT !.lv = Longer(e.lv, DOT)]
    [] e.k = "itp" -> [e EXCEPT !.e = ChgE(e.e)]
    [] e.k = "ifd" -> [e EXCEPT !.ic = ChgE(e.ic), !.it = CEls(e.it), !.et = CEls(e.et)]
    [] e.k = "fod" -> [e EXCEPT !.kv = IF e.hask THEN CId(e.kv) ELSE e.kv, !.vv = CId(e.vv), !.coll = ChgE(e.coll), !.ft = CEls(e.ft)]
RECURSIVE CSs(_)
CLabel(l) == IF l.k = "lstr" THEN [l EXCEPT !.lsv = Longer(l.lsv, BANG)] ELSE CId(l)
CSs(ss) == [k \in 1..Len(ss) |->
  IF ss[k].k = "attr" THEN [ss[k] EXCEPT !.val = ChgE(ss[k].val)]
  ELSE [ss[k] EXCEPT !.bid = CId(ss[k].bid), !.labels = [j \in 1..Len(ss[k].labels) |-> CLabel(ss[k].labels[j])],
                     !.body.ss = CSs(ss[k].body.ss)]]
Changed(n) ==
  CASE n.k = "body" -> [n EXCEPT !.ss = CSs(n.ss)]
    [] n.k = "template" -> [n EXCEPT !.els = CEls(n.els)]
    [] OTHER -> ChgE(n)
=============================================================================
