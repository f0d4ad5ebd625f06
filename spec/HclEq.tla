-------------------------------- MODULE HclEq ---------------------------------
(***************************************************************************)
(* When trees of hcl-edit are equal: nothing but decor around nodes, spans,  *)
(* spelling of numbers and the layout preferences of bodies may differ.      *)
(* Punctuation of objects, trailing commas and text inside empty brackets or *)
(* directives is part of the trees.                                          *)
(***************************************************************************)
EXTENDS HclParser

All2(a, b, T(_, _)) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : T(a[k], b[k])

RECURSIVE SameE(_, _), SameEl(_, _), SameTop(_, _), SameEs(_, _, _), SameEls(_, _, _), SameTops(_, _, _), SameEnts(_, _, _)
SameId(a, b) == a.id = b.id
SameIds(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameId(a[k], b[k])
SameEs(a, b, k) == k > Len(a) \/ (SameE(a[k], b[k]) /\ SameEs(a, b, k + 1))
SameEls(a, b, k) == k > Len(a) \/ (SameEl(a[k], b[k]) /\ SameEls(a, b, k + 1))
SameTops(a, b, k) == k > Len(a) \/ (SameTop(a[k], b[k]) /\ SameTops(a, b, k + 1))
SameKey(a, b) == (a.k = "id") = (b.k = "id") /\ (IF a.k = "id" THEN SameId(a, b) ELSE SameE(a, b))
(* The order of items matters. *)
SameEnt(x, y) == x.asg = y.asg /\ x.term = y.term /\ SameKey(x.key, y.key) /\ SameE(x.val, y.val)
SameEnts(a, b, k) == k > Len(a) \/ (SameEnt(a[k], b[k]) /\ SameEnts(a, b, k + 1))
SameTpl(a, b) == Len(a) = Len(b) /\ SameEls(a, b, 1)
SameList(a, b) == Len(a) = Len(b) /\ SameEs(a, b, 1)
SameE(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "null" -> TRUE
       [] a.k = "bool" -> a.b = b.b
       [] a.k = "num" -> a.val = b.val
       [] a.k = "str" -> a.sv = b.sv
       [] a.k = "var" -> SameId(a, b)
       [] a.k = "arr" -> a.tc = b.tc /\ a.tr = b.tr /\ SameList(a.items, b.items)
       [] a.k = "obj" -> a.tr = b.tr /\ Len(a.ents) = Len(b.ents) /\ SameEnts(a.ents, b.ents, 1)
       [] a.k = "tpl" -> SameTpl(a.els, b.els)
       [] a.k = "hd" -> a.delim = b.delim /\ a.ind = b.ind /\ a.tr = b.tr /\ SameTpl(a.els, b.els)
       [] a.k = "par" -> SameE(a.e, b.e)
       [] a.k = "cond" -> SameE(a.ce, b.ce) /\ SameE(a.te, b.te) /\ SameE(a.fe, b.fe)
       [] a.k = "fn" -> SameIds(a.ns, b.ns) /\ SameId(a.name, b.name) /\ a.exp = b.exp /\ a.tc = b.tc /\ a.tr = b.tr /\ SameList(a.args, b.args)
       [] a.k = "trv" -> SameE(a.e, b.e) /\ Len(a.tops) = Len(b.tops) /\ SameTops(a.tops, b.tops, 1)
       [] a.k = "un" -> a.uop = b.uop /\ SameE(a.e, b.e)
       [] a.k = "bin" -> a.op.o = b.op.o /\ SameE(a.l, b.l) /\ SameE(a.r, b.r)
       [] a.k = "for" -> /\ a.hask = b.hask /\ (a.hask => SameId(a.kv, b.kv)) /\ SameId(a.vv, b.vv) /\ SameE(a.coll, b.coll)
                         /\ a.haskey = b.haskey /\ (a.haskey => SameE(a.ke, b.ke)) /\ SameE(a.ve, b.ve) /\ a.grp = b.grp
                         /\ a.hasc = b.hasc /\ (a.hasc => SameE(a.cond, b.cond))
SameTop(a, b) ==
  /\ a.tk = b.tk
  /\ CASE a.tk \in {"asp", "fsp"} -> TRUE
       [] a.tk \in {"attr", "leg"} -> SameId(a, b)
       [] a.tk = "idx" -> SameE(a.ix, b.ix)
SameEl(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "lit" -> a.lv = b.lv
       [] a.k = "itp" -> a.st = b.st /\ SameE(a.e, b.e)
       [] a.k = "ifd" -> /\ a.ist = b.ist /\ a.ipre = b.ipre /\ SameE(a.ic, b.ic) /\ SameTpl(a.it, b.it)
                         /\ a.hase = b.hase /\ a.est = b.est /\ a.epre = b.epre /\ a.etr = b.etr /\ SameTpl(a.et, b.et)
                         /\ a.nst = b.nst /\ a.npre = b.npre /\ a.ntr = b.ntr
       [] a.k = "fod" -> /\ a.fst = b.fst /\ a.fpre = b.fpre /\ a.hask = b.hask /\ (a.hask => SameId(a.kv, b.kv)) /\ SameId(a.vv, b.vv)
                         /\ SameE(a.coll, b.coll) /\ SameTpl(a.ft, b.ft) /\ a.nst = b.nst /\ a.npre = b.npre /\ a.ntr = b.ntr

RECURSIVE SameB(_, _), SameSs(_, _, _)
SameLabel(a, b) == a.k = b.k /\ (IF a.k = "lstr" THEN a.lsv = b.lsv ELSE SameId(a, b))
SameLabels(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameLabel(a[k], b[k])
SameS(a, b) ==
  /\ a.k = b.k
  /\ IF a.k = "attr" THEN SameId(a.key, b.key) /\ SameE(a.val, b.val)
     ELSE SameId(a.bid, b.bid) /\ SameLabels(a.labels, b.labels) /\ SameB(a.body, b.body)
SameSs(a, b, k) == k > Len(a) \/ (SameS(a[k], b[k]) /\ SameSs(a, b, k + 1))
SameB(a, b) == Len(a.ss) = Len(b.ss) /\ SameSs(a.ss, b.ss, 1)

SameTree(mode, a, b) == CASE mode = "body" -> SameB(a, b) [] mode = "expr" -> SameE(a, b) [] mode = "tpl" -> SameTpl(a, b)
=============================================================================
