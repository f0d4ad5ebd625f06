-------------------------------- MODULE HclJson --------------------------------
(***************************************************************************)
(* Documents and expressions as plain values, after the JSON syntax of HCL: *)
(* blocks become objects named by their identifier and labels, blocks of     *)
(* the same name are merged, and expressions which are not literals become   *)
(* templates.  Values are the records of HclFormat (t: null, bool, num, str, *)
(* arr, obj), objects are sequences of pairs of a key and a value.           *)
(***************************************************************************)
EXTENDS HclFormat

JsonCfg == [DefaultCfg EXCEPT !.arrays = TRUE, !.objects = TRUE, !.idents = FALSE]
PlainCfg == [DefaultCfg EXCEPT !.idents = FALSE]
VNull == [t |-> "null"]
VBool(b) == [t |-> "bool", v |-> b]
VNum(n) == [t |-> "num", v |-> n]
VStr(s) == [t |-> "str", v |-> s]
VArr(vs) == [t |-> "arr", v |-> vs]
VObj(ps) == [t |-> "obj", v |-> ps]
AsInterp(e) == <<DOLLAR, LBRC>> \o FmtE(e, 0, JsonCfg) \o <<RBRC>>

(* pairs with the value of the key replaced or added at the end *)
Spot(ps, key) == {j \in 1..Len(ps) : ps[j][1] = key}
PutPair(ps, key, v) ==
  IF Spot(ps, key) = {} THEN Append(ps, <<key, v>>) ELSE [ps EXCEPT ![CHOOSE j \in Spot(ps, key) : TRUE][2] = v]

(* An expression as value. *)
KeyOf(v) == IF v.t = "str" THEN v.v ELSE FmtV(v, 0, PlainCfg)
RECURSIVE EV(_), EVEnts(_, _, _)
EV(e) ==
  CASE e.k = "null" -> VNull
    [] e.k = "bool" -> VBool(e.b)
    [] e.k = "num" -> VNum(e.val)
    [] e.k = "str" -> VStr(e.sv)
    [] e.k = "arr" -> VArr([k \in 1..Len(e.items) |-> EV(e.items[k])])
    [] e.k = "obj" -> VObj(EVEnts(e.ents, 1, <<>>))
    [] e.k \in {"tpl", "hd"} -> VStr(e.txt)
    [] e.k = "par" -> EV(e.e)
    [] OTHER -> VStr(AsInterp(e))
EVEnts(es, k, acc) ==
  IF k > Len(es) THEN acc
  ELSE EVEnts(es, k + 1, PutPair(acc, IF es[k].key.k = "id" THEN es[k].key.id ELSE KeyOf(EV(es[k].key)), EV(es[k].val)))

(* Only primitive values can be keys; deserialization insists on it. *)
RECURSIVE GoodKeys(_)
GoodKeys(e) ==
  CASE e.k = "arr" -> \A k \in 1..Len(e.items) : GoodKeys(e.items[k])
    [] e.k = "obj" -> \A k \in 1..Len(e.ents) :
                        /\ e.ents[k].key.k = "id" \/ EV(e.ents[k].key).t \notin {"arr", "obj"}
                        /\ GoodKeys(e.ents[k].val)
    [] e.k = "par" -> GoodKeys(e.e)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* A document.  What a name stands for: an expression [j: "expr", e], the    *)
(* bodies of blocks [j: "bodies", bs], or the labels which follow            *)
(* [j: "map", m].                                                            *)
JMap(m) == [j |-> "map", m |-> m]
JBodies(bs) == [j |-> "bodies", bs |-> bs]
JExpr(e) == [j |-> "expr", e |-> e]
LabelTextJ(l) == IF l.k = "lstr" THEN l.lsv ELSE l.id

RECURSIVE BlockNode(_, _), MergeNode(_, _, _), MergeNodes(_, _), MergeMap(_, _, _)
BlockNode(b, k) ==
  IF k > Len(b.labels) THEN JBodies(<<b.body>>)
  ELSE JMap(<< <<LabelTextJ(b.labels[k]), BlockNode(b, k + 1)>> >>)
MergeNode(ps, key, n) ==
  IF Spot(ps, key) = {} THEN Append(ps, <<key, n>>)
  ELSE LET j == CHOOSE x \in Spot(ps, key) : TRUE IN [ps EXCEPT ![j][2] = MergeNodes(ps[j][2], n)]
MergeMap(ps, qs, k) == IF k > Len(qs) THEN ps ELSE MergeMap(MergeNode(ps, qs[k][1], qs[k][2]), qs, k + 1)
MergeNodes(a, b) ==
  CASE a.j = "map" /\ b.j = "map" -> JMap(MergeMap(a.m, b.m, 1))
    [] a.j = "bodies" /\ b.j = "bodies" -> JBodies(a.bs \o b.bs)
    [] OTHER -> b    \* an attribute, or another number of labels: the last one counts

RECURSIVE NodesOf(_, _, _)
NodesOf(ss, k, acc) ==
  IF k > Len(ss) THEN acc
  ELSE NodesOf(ss, k + 1, IF ss[k].k = "attr" THEN PutPair(acc, ss[k].key.id, JExpr(ss[k].val))
                          ELSE MergeNode(acc, ss[k].bid.id, BlockNode(ss[k], 1)))
RECURSIVE JNode(_), JPairs(_)
JObj(ents) == ObjE(ents, <<>>)
JPairs(ps) == JObj([k \in 1..Len(ps) |-> Ent(StrE(ps[k][1]), "=", JNode(ps[k][2]), "none")])
JBody(b) == JPairs(NodesOf(b.ss, 1, <<>>))
JNode(n) ==
  CASE n.j = "map" -> JPairs(n.m)
    [] n.j = "bodies" -> IF Len(n.bs) = 1 THEN JPairs(NodesOf(n.bs[1].ss, 1, <<>>))
                         ELSE ArrE([k \in 1..Len(n.bs) |-> JPairs(NodesOf(n.bs[k].ss, 1, <<>>))], FALSE, <<>>)
    [] n.j = "expr" -> n.e
(* as expression and as value *)
AsExpr(n) == IF n.k = "body" THEN JBody(n) ELSE n
AsValue(n) == EV(AsExpr(n))
=============================================================================
