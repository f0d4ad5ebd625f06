------------------------------ MODULE AccessCheck ------------------------------
(* Observations [k |-> "iter", pat, ops, runs]: what the iterators of a          *)
(* container give for requests; every run is of some iterators which behaved     *)
(* the same, with the items which are changed afterwards if they were changed    *)
(* as they were handed out.  The other observations are of nodes: what they say  *)
(* they are, what they give access to, and what changes made there do to them.    *)
EXTENDS HclIter, HclAccess, Obs

C == Cases[i]
Hinted(g, q, exact) ==
  /\ g.lo <= Len(q)
  /\ \A h \in ToSet(g.hi) : h >= Len(q)
  /\ \A n \in ToSet(g.len) : n = Len(q)
  /\ exact => g.lo = Len(q) /\ g.hi = <<Len(q)>> /\ g.len = <<Len(q)>>
RECURSIVE RunOk(_, _, _)
RunOk(run, q, k) ==
  k > Len(C.ops) \/
  LET r == C.ops[k] g == run.got[k] IN
  /\ IF r.o = "hint" THEN Why(<<"hint", run.its, q>>, Hinted(g, q, run.exact))
     ELSE IF r.o = "clone" /\ g = <<0>> THEN TRUE
     ELSE Why(<<run.its, k, Reply(q, r)>>, g = Reply(q, r))
  /\ RunOk(run, Left(q, r), k + 1)
IterOk == \A j \in 1..Len(C.runs) :
  LET run == C.runs[j] q == Chosen(C.pat, run.which) IN
  /\ Why(<<"panic", run.its>>, run.fine)
  /\ RunOk(run, q, 1)
  /\ \A m \in ToSet(run.marked) : Why(<<"marked", run.its>>, ToSet(m) = Handed(q, C.ops))

N0 == C.node
Says(got, names) == Why(<<"is", names>>, ToSet(got) = names /\ Len(got) = Cardinality(names))
IfK(b, x) == IF b THEN <<x>> ELSE <<>>
ExprOk ==
  /\ Says(C.is, ExprNames(N0))
  /\ Why("as", C.as = IF N0.k = "null" THEN <<>> ELSE OneNode(N0, ExprName(N0.k)))
  /\ Why("template", C.els = IfK(N0.k \in {"tpl", "hd"}, N0.els))
  /\ Why("namespaced", C.ns = IfK(N0.k = "fn", N0.ns # <<>>))
  /\ Why("pushed", C.pushed = IfK(N0.k = "arr", [N0 EXCEPT !.items = Append(@, NullE)]))
  /\ Why("cleared", C.cleared = IfK(N0.k = "obj", [N0 EXCEPT !.ents = <<>>]))
ElementOk == Says(C.is, {ElName(N0)}) /\ Why("as", C.as = OneNode(N0, ElName(N0)))
LabelOk == Says(C.is, {LabelName(N0)}) /\ Why("text", C.s = LabelTxt(N0))
KeyOk ==
  /\ Says(C.is, {KeyName(N0)}) /\ Why("as", C.as = OneNode(N0, KeyName(N0)))
  /\ Why("view", C.spans = <<TRUE>>)
  /\ Why("decorated", C.decorated = [C.full EXCEPT !.pre = <<32>>, !.suf = <<32, 32>>])
  /\ Why(<<"shown", Shown(C.rnode)>>, C.display = Shown(C.rnode))
IsStruc == \A k \in 1..Len(C.is) : Says(C.is[k], {StrucName(N0)}) /\ Why("as", C.as[k] = OneNode(N0, StrucName(N0)))
IsChanged == \A k \in 1..Len(C.changed) : Why(<<"changed", k>>, C.changed[k] = Changed(N0))
StrucOk ==
  /\ IsStruc /\ IsChanged
  /\ Why("into attribute", C.into.attribute = [ok |-> N0.k = "attr", v |-> N0])
  /\ Why("into block", C.into.block = [ok |-> N0.k # "attr", v |-> N0])
  /\ Why("view", \A k \in 1..Len(C.spans) : C.spans[k])
  /\ Why(<<"decorated", Decorated(C.full)>>, C.decorated = Decorated(C.full))
RStrucOk ==
  /\ IsStruc /\ IsChanged
  /\ IF N0.k = "attr" THEN Why("parts", C.parts.key = N0.key.id /\ C.parts.val = N0.val)
     ELSE Why("parts", C.parts.ident = N0.bid.id /\ C.parts.labels = N0.labels /\ C.parts.body = N0.body)
ValueOk ==
  /\ Says(C.is, {ValName(N0)}) /\ Why("as", C.as = OneNode(N0, ValName(N0)))
  /\ Why("number", \A k \in 1..Len(C.nums) : C.nums[k])
  /\ Why("pushed", C.pushed = IfK(N0.t = "arr", [N0 EXCEPT !.v = Append(@, [t |-> "null"])]))
  /\ Why("cleared", C.cleared = IfK(N0.t = "obj", [N0 EXCEPT !.v = <<>>]))
  /\ Why("taken", C.taken = N0 /\ C.left = [t |-> "null"])
NodeOk ==
  CASE C.k = "iter" -> IterOk
    [] ~C.fine -> Why("panic", FALSE)
    [] C.k = "expr" -> ExprOk
    [] C.k = "struct" -> StrucOk
    [] C.k = "rstruct" -> RStrucOk
    [] C.k = "value" -> ValueOk
    [] C.k = "label" -> LabelOk
    [] C.k = "key" -> KeyOk
    [] C.k = "element" -> ElementOk
    [] C.k = "rfunc" -> Why("namespaced", C.ns = (N0.ns # <<>>))
Inv == Report(NodeOk)
=============================================================================
