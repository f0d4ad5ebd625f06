------------------------------- MODULE HclSerde -------------------------------
(***************************************************************************)
(* Serialization: what documents and expressions the data of a program      *)
(* becomes.  Data are records of the data model of serde:                   *)
(*   [d |-> "bool", b], "int"/"float" [val], "nan" (no number or infinite), *)
(*   "big" (integers of more than 64 bits), "char"/"str" [s], "bytes" [bs], *)
(*   "none", "some" [v], "unit", "ustruct", "nstruct" [v], "uvar" [n],      *)
(*   "nvar" [n, v], "seq"/"tup"/"tstruct" [xs], "tvar" [n, xs],             *)
(*   "map" [ps: pairs of data], "struct" [ps: pairs of a name and data],    *)
(*   "svar" [n, ps], the markers "block"/"lblock" [v], "dlblock" [v]        *)
(*   and parts of documents: "expr" [e], "struc" [st], "body" [bd].         *)
(* Results are <<>> if the data cannot be represented, and <<x>> otherwise. *)
(***************************************************************************)
EXTENDS HclJson, HclText

NoRes == <<>>
Res(x) == <<x>>
Bad(rs) == \E k \in 1..Len(rs) : rs[k] = <<>>
All(rs) == IF Bad(rs) THEN NoRes ELSE Res([k \in 1..Len(rs) |-> rs[k][1]])
RECURSIVE Flat(_, _, _)
Flat(xss, k, acc) == IF k > Len(xss) THEN acc ELSE Flat(xss, k + 1, acc \o xss[k])
AllFlat(rs) == IF Bad(rs) THEN NoRes ELSE Res(Flat([k \in 1..Len(rs) |-> rs[k][1]], 1, <<>>))

NumL(v) == [k |-> "num", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, repr |-> <<>>, val |-> v]
Newtype(v) == [d |-> "nstruct", v |-> v]
Seq0(xs) == [d |-> "seq", xs |-> xs]
Struct0(ps) == [d |-> "struct", ps |-> ps]
NVar(n, v) == [d |-> "nvar", n |-> n, v |-> v]
(* the structs and markers written in terms of others *)
BodyD(b) == Newtype(Seq0([k \in 1..Len(b.ss) |-> [d |-> "struc", st |-> b.ss[k]]]))
DLBlock(m) == [d |-> "lblock", v |-> [d |-> "map", ps |-> [k \in 1..Len(m.ps) |->
                                       <<m.ps[k][1], [d |-> "lblock", v |-> m.ps[k][2]]>>]]]

-----------------------------------------------------------------------------
(* Keys and names. *)
RECURSIVE KeyE(_), NameS(_)
KeyE(x) ==
  CASE x.d = "int" -> Res(NumL(x.val))
    [] x.d \in {"char", "str"} -> Res(StrE(x.s))
    [] x.d = "uvar" -> IF IsIdentText(x.n) THEN Res(Id0(x.n)) ELSE NoRes
    [] x.d \in {"some", "nstruct", "nvar", "block", "lblock"} -> KeyE(x.v)
    [] OTHER -> NoRes
(* the text of a name *)
NameS(x) ==
  CASE x.d \in {"char", "str"} -> Res(x.s)
    [] x.d = "uvar" -> Res(x.n)
    [] x.d \in {"some", "nstruct", "block", "lblock"} -> NameS(x.v)
    [] OTHER -> NoRes
NameI(x) == LET r == NameS(x) IN IF r # NoRes /\ IsIdentText(r[1]) THEN r ELSE NoRes
IdentOf(s) == IF IsIdentText(s) THEN Res(s) ELSE NoRes

-----------------------------------------------------------------------------
(* Expressions. *)
SpotE(es, key) == {j \in 1..Len(es) : es[j].key = key}
AddEnt(es, key, v) ==
  IF SpotE(es, key) = {} THEN Append(es, Ent(key, "=", v, "none"))
  ELSE [es EXCEPT ![CHOOSE j \in SpotE(es, key) : TRUE].val = v]
RECURSIVE AddEnts(_, _, _)
AddEnts(ks, k, acc) == IF k > Len(ks) THEN acc ELSE AddEnts(ks, k + 1, AddEnt(acc, ks[k][1], ks[k][2]))
(* an object of the keys and values, both results *)
ObjOf(ks, vs) ==
  IF Bad(ks) \/ Bad(vs) THEN NoRes
  ELSE Res(ObjE(AddEnts([k \in 1..Len(ks) |-> <<ks[k][1], vs[k][1]>>], 1, <<>>), <<>>))
Arr0(es) == ArrE(es, FALSE, <<>>)

RECURSIVE SerE(_)
SerEs(xs) == [k \in 1..Len(xs) |-> SerE(xs[k])]
SerArr(xs) == LET r == All(SerEs(xs)) IN IF r = NoRes THEN NoRes ELSE Res(Arr0(r[1]))
SerFields(ps) == ObjOf([k \in 1..Len(ps) |-> Res(StrE(ps[k][1]))], [k \in 1..Len(ps) |-> SerE(ps[k][2])])
Tagged(key, r) == ObjOf(<<key>>, <<r>>)
SerE(x) ==
  CASE x.d = "bool" -> Res(BoolE(x.b))
    [] x.d \in {"int", "float"} -> Res(NumL(x.val))
    [] x.d \in {"nan", "none", "unit", "ustruct"} -> Res(NullE)
    [] x.d = "big" -> NoRes
    [] x.d \in {"char", "str"} -> Res(StrE(x.s))
    [] x.d = "bytes" -> Res(Arr0([k \in 1..Len(x.bs) |-> NumL(x.bs[k])]))
    [] x.d = "uvar" -> Res(StrE(x.n))
    [] x.d \in {"some", "nstruct", "block", "lblock"} -> SerE(x.v)
    [] x.d = "dlblock" -> SerE(DLBlock(x.v))
    [] x.d = "nvar" -> Tagged(IF IsIdentText(x.n) THEN Res(Id0(x.n)) ELSE NoRes, SerE(x.v))
    [] x.d \in {"seq", "tup", "tstruct"} -> SerArr(x.xs)
    [] x.d = "tvar" -> Tagged(Res(StrE(x.n)), SerArr(x.xs))
    [] x.d = "map" -> ObjOf([k \in 1..Len(x.ps) |-> KeyE(x.ps[k][1])], [k \in 1..Len(x.ps) |-> SerE(x.ps[k][2])])
    [] x.d = "struct" -> SerFields(x.ps)
    [] x.d = "svar" -> Tagged(Res(StrE(x.n)), SerFields(x.ps))
    [] x.d = "expr" -> Res(x.e)
    [] x.d = "struc" -> NoRes
    [] x.d = "body" -> SerE(BodyD(x.bd))

-----------------------------------------------------------------------------
(* Structures: SerS for the value of the name id, SerB and SerL for one       *)
(* which is marked as block or labelled block, SerBody for the whole.         *)
Attr0(id, e) == AttrS(Id0(id), e)
Block0(id, ss) == BlockS(Id0(id), <<>>, BodyN(ss, FALSE, FALSE))
AttrOf(id, r) == IF r = NoRes THEN NoRes ELSE Res(<<Attr0(id, r[1])>>)
BlockOf(id, r) == IF r = NoRes THEN NoRes ELSE Res(<<Block0(id, r[1])>>)
(* the attributes an object expression stands for *)
KeyIdent(k) == IF k.k = "id" THEN Res(k.id) ELSE IF k.k = "str" THEN IdentOf(k.sv) ELSE NoRes
ObjAttrs(e) ==
  IF e.k # "obj" THEN NoRes
  ELSE All([k \in 1..Len(e.ents) |->
         LET n == KeyIdent(e.ents[k].key) IN IF n = NoRes THEN NoRes ELSE Res(Attr0(n[1], e.ents[k].val))])
WithLabels(r, ls) ==
  IF r = NoRes THEN NoRes
  ELSE LET bs == SelectSeq(r[1], LAMBDA s : s.k = "block") IN
       Res([k \in 1..Len(bs) |-> [bs[k] EXCEPT !.labels = ls \o @]])

RECURSIVE SerS(_, _), SerB(_, _), SerL(_, _), SerBody(_)
(* the fields of a map or struct as structures *)
SerMapS(ps) == AllFlat([k \in 1..Len(ps) |-> LET n == NameI(ps[k][1]) IN IF n = NoRes THEN NoRes ELSE SerS(n[1], ps[k][2])])
SerStructS(ps) == AllFlat([k \in 1..Len(ps) |-> IF IsIdentText(ps[k][1]) THEN SerS(ps[k][1], ps[k][2]) ELSE NoRes])
SerS(id, x) ==
  CASE x.d = "block" -> SerB(id, x.v)
    [] x.d = "lblock" -> SerL(id, x.v)
    [] x.d = "dlblock" -> SerS(id, DLBlock(x.v))
    [] x.d = "some" -> SerS(id, x.v)
    [] OTHER -> AttrOf(id, SerE(x))
SerB(id, x) ==
  CASE x.d = "lblock" -> SerL(id, x.v)
    [] x.d = "dlblock" -> SerB(id, DLBlock(x.v))
    [] x.d \in {"some", "nstruct", "block"} -> SerB(id, x.v)
    [] x.d = "nvar" -> BlockOf(id, IF IsIdentText(x.n) THEN SerS(x.n, x.v) ELSE NoRes)
    [] x.d \in {"seq", "tup", "tstruct"} -> AllFlat([k \in 1..Len(x.xs) |-> SerB(id, x.xs[k])])
    [] x.d = "tvar" -> BlockOf(id, IF IsIdentText(x.n) THEN AllFlat([k \in 1..Len(x.xs) |-> SerB(x.n, x.xs[k])]) ELSE NoRes)
    [] x.d = "map" -> BlockOf(id, SerMapS(x.ps))
    [] x.d = "struct" -> BlockOf(id, SerStructS(x.ps))
    [] x.d = "svar" -> BlockOf(id, IF IsIdentText(x.n) THEN BlockOf(x.n, SerStructS(x.ps)) ELSE NoRes)
    [] x.d = "expr" -> BlockOf(id, ObjAttrs(x.e))
    [] x.d = "body" -> SerB(id, BodyD(x.bd))
    [] OTHER -> NoRes
SerL(id, x) ==
  CASE x.d \in {"some", "nstruct", "block", "lblock"} -> SerL(id, x.v)
    [] x.d = "dlblock" -> SerL(id, DLBlock(x.v))
    [] x.d = "nvar" -> WithLabels(SerB(id, x.v), <<LabelS(x.n)>>)
    [] x.d \in {"seq", "tup", "tstruct"} -> AllFlat([k \in 1..Len(x.xs) |-> SerL(id, x.xs[k])])
    [] x.d = "tvar" -> AllFlat([k \in 1..Len(x.xs) |-> WithLabels(SerB(id, x.xs[k]), <<LabelS(x.n)>>)])
    [] x.d = "map" -> AllFlat([k \in 1..Len(x.ps) |->
                        LET n == NameS(x.ps[k][1]) IN
                        IF n = NoRes THEN NoRes ELSE WithLabels(SerB(id, x.ps[k][2]), <<LabelS(n[1])>>)])
    [] x.d = "struct" -> AllFlat([k \in 1..Len(x.ps) |-> WithLabels(SerB(id, x.ps[k][2]), <<LabelS(x.ps[k][1])>>)])
    [] x.d = "svar" -> AllFlat([k \in 1..Len(x.ps) |->
                         WithLabels(SerB(id, x.ps[k][2]), <<LabelS(x.n), LabelS(x.ps[k][1])>>)])
    [] x.d = "expr" ->
         IF x.e.k # "obj" THEN NoRes
         ELSE AllFlat([k \in 1..Len(x.e.ents) |->
                LET n == x.e.ents[k] IN
                WithLabels(SerB(id, [d |-> "expr", e |-> n.val]),
                           <<LabelS(IF n.key.k = "id" THEN n.key.id ELSE KeyOf(EV(n.key)))>>)])
    [] x.d = "body" -> SerL(id, BodyD(x.bd))
    [] OTHER -> NoRes
SerBody(x) ==
  CASE x.d \in {"some", "nstruct", "block", "lblock"} -> SerBody(x.v)
    [] x.d = "dlblock" -> SerBody(DLBlock(x.v))
    [] x.d = "nvar" -> IF IsIdentText(x.n) THEN SerS(x.n, x.v) ELSE NoRes
    [] x.d \in {"seq", "tup", "tstruct"} -> AllFlat([k \in 1..Len(x.xs) |-> SerBody(x.xs[k])])
    [] x.d = "tvar" -> IF IsIdentText(x.n) THEN AttrOf(x.n, SerArr(x.xs)) ELSE NoRes
    [] x.d = "map" -> SerMapS(x.ps)
    [] x.d = "struct" -> SerStructS(x.ps)
    [] x.d = "svar" -> IF IsIdentText(x.n) THEN BlockOf(x.n, SerStructS(x.ps)) ELSE NoRes
    [] x.d = "expr" -> ObjAttrs(x.e)
    [] x.d = "struc" -> Res(<<x.st>>)
    [] x.d = "body" -> Res(x.bd.ss)
    [] OTHER -> NoRes
SerDoc(x) == LET r == SerBody(x) IN IF r = NoRes THEN NoRes ELSE Res(BodyN(r[1], FALSE, FALSE))

-----------------------------------------------------------------------------
(* Values; this is also what other serializers see. *)
RECURSIVE PutPairs(_, _, _)
PutPairs(ps, k, acc) == IF k > Len(ps) THEN acc ELSE PutPairs(ps, k + 1, PutPair(acc, ps[k][1], ps[k][2]))
VObjOf(ks, vs) ==
  IF Bad(ks) \/ Bad(vs) THEN NoRes
  ELSE Res(VObj(PutPairs([k \in 1..Len(ks) |-> <<ks[k][1], vs[k][1]>>], 1, <<>>)))
RECURSIVE SerV(_), ExtE(_), ExtS(_), NameV(_)
(* here expressions may be names, if they are texts *)
NameV(x) ==
  CASE x.d = "expr" -> LET v == ExtE(x.e) IN IF v.t = "str" THEN Res(v.v) ELSE NoRes
    [] x.d \in {"some", "nstruct", "block", "lblock"} -> NameV(x.v)
    [] OTHER -> NameS(x)
SerVArr(xs) == LET r == All([k \in 1..Len(xs) |-> SerV(xs[k])]) IN IF r = NoRes THEN NoRes ELSE Res(VArr(r[1]))
SerVFields(ps) == VObjOf([k \in 1..Len(ps) |-> Res(ps[k][1])], [k \in 1..Len(ps) |-> SerV(ps[k][2])])
VTagged(n, r) == VObjOf(<<Res(n)>>, <<r>>)
SerV(x) ==
  CASE x.d = "bool" -> Res(VBool(x.b))
    [] x.d \in {"int", "float"} -> Res(VNum(x.val))
    [] x.d \in {"nan", "none", "unit", "ustruct"} -> Res(VNull)
    [] x.d = "big" -> NoRes
    [] x.d \in {"char", "str"} -> Res(VStr(x.s))
    [] x.d = "bytes" -> Res(VArr([k \in 1..Len(x.bs) |-> VNum(x.bs[k])]))
    [] x.d = "uvar" -> Res(VStr(x.n))
    [] x.d \in {"some", "nstruct", "block", "lblock", "dlblock"} -> SerV(x.v)
    [] x.d = "nvar" -> VTagged(x.n, SerV(x.v))
    [] x.d \in {"seq", "tup", "tstruct"} -> SerVArr(x.xs)
    [] x.d = "tvar" -> VTagged(x.n, SerVArr(x.xs))
    [] x.d = "map" -> VObjOf([k \in 1..Len(x.ps) |-> NameV(x.ps[k][1])], [k \in 1..Len(x.ps) |-> SerV(x.ps[k][2])])
    [] x.d = "struct" -> SerVFields(x.ps)
    [] x.d = "svar" -> VTagged(x.n, SerVFields(x.ps))
    [] x.d = "expr" -> Res(ExtE(x.e))
    [] x.d = "struc" -> Res(ExtS(x.st))
    [] x.d = "body" -> Res(VArr([k \in 1..Len(x.bd.ss) |-> ExtS(x.bd.ss[k])]))
(* Expressions which are not literals are written as interpolations. *)
ExtE(e) ==
  CASE e.k = "null" -> VNull
    [] e.k = "bool" -> VBool(e.b)
    [] e.k = "num" -> VNum(e.val)
    [] e.k = "str" -> VStr(e.sv)
    [] e.k = "arr" -> VArr([k \in 1..Len(e.items) |-> ExtE(e.items[k])])
    [] e.k = "obj" -> VObj(PutPairs([k \in 1..Len(e.ents) |->
                        <<IF e.ents[k].key.k = "id" THEN e.ents[k].key.id ELSE KeyOf(EV(e.ents[k].key)),
                          ExtE(e.ents[k].val)>>], 1, <<>>))
    [] e.k = "par" -> ExtE(e.e)
    [] OTHER -> VStr(AsInterp(e))
T_key == Cp("key")
T_expr == Cp("expr")
T_identifier == Cp("identifier")
T_labels == Cp("labels")
T_body == Cp("body")
T_String == Cp("String")
T_Identifier == Cp("Identifier")
ExtS(s) ==
  IF s.k = "attr" THEN VObj(<< <<T_key, VStr(s.key.id)>>, <<T_expr, ExtE(s.val)>> >>)
  ELSE VObj(<< <<T_identifier, VStr(s.bid.id)>>,
               <<T_labels, VArr([k \in 1..Len(s.labels) |->
                  VObj(<< IF s.labels[k].k = "lstr" THEN <<T_String, VStr(s.labels[k].lsv)>>
                          ELSE <<T_Identifier, VStr(s.labels[k].id)>> >>)])>>,
               <<T_body, VArr([k \in 1..Len(s.body.ss) |-> ExtS(s.body.ss[k])])>> >>)

-----------------------------------------------------------------------------
(* Data made of other data, which Reduce rewrites to the data they stand for: *)
(*   "flat" [ps, v]   a struct with the fields ps whose last member is        *)
(*                    flattened into it,                                      *)
(*   "tag" [n, v]     an enum with its tag t inside the data of the variant n, *)
(*   "via" [w, v]     what another serializer, called while this is           *)
(*                    serialized, makes of v: w is "value", "expr", "hcl" or  *)
(*                    "json"; "try" [w, v] is the same, or nothing if that    *)
(*                    fails or panics,                                        *)
(*   "fail", "panic"  an implementation which fails, or panics.               *)
(* Nodes of documents have fields only for the serializers of others (ext).   *)
Fail0 == [d |-> "big"]
StrD0(s) == [d |-> "str", s |-> s]
UnitD0 == [d |-> "unit"]
T_t == Cp("t")
RECURSIVE DataOf(_)
(* the data of a value *)
DataOf(v) ==
  CASE v.t = "null" -> UnitD0
    [] v.t = "bool" -> [d |-> "bool", b |-> v.v]
    [] v.t = "num" -> [d |-> "int", val |-> v.v]
    [] v.t = "str" -> StrD0(v.v)
    [] v.t = "arr" -> Seq0([k \in 1..Len(v.v) |-> DataOf(v.v[k])])
    [] v.t = "obj" -> [d |-> "map", ps |-> [k \in 1..Len(v.v) |-> <<StrD0(v.v[k][1]), DataOf(v.v[k][2])>>]]
StrPairs(ps) == [k \in 1..Len(ps) |-> <<StrD0(ps[k][1]), ps[k][2]>>]
ValuePairs(v) == IF v.t = "obj" THEN Res(DataOf(v).ps) ELSE IF v.t = "null" THEN Res(<<>>) ELSE NoRes
RECURSIVE PairsOf(_, _), TaggedOf(_, _, _), Reduce(_, _)
(* the fields which reduced data have *)
PairsOf(x, ext) ==
  CASE x.d = "map" -> Res(x.ps)
    [] x.d = "dlblock" -> Res(DLBlock(x.v).v.ps)
    [] x.d = "struct" -> Res(StrPairs(x.ps))
    [] x.d \in {"some", "nstruct", "block", "lblock"} -> PairsOf(x.v, ext)
    [] x.d \in {"none", "unit", "ustruct"} -> Res(<<>>)
    [] x.d = "uvar" -> Res(<< <<StrD0(x.n), UnitD0>> >>)
    [] x.d = "nvar" -> Res(<< <<StrD0(x.n), x.v>> >>)
    [] x.d = "tvar" -> Res(<< <<StrD0(x.n), Seq0(x.xs)>> >>)
    [] x.d = "svar" -> Res(<< <<StrD0(x.n), Struct0(x.ps)>> >>)
    [] x.d = "expr" /\ ext -> ValuePairs(ExtE(x.e))
    [] x.d = "struc" /\ ext -> ValuePairs(ExtS(x.st))
    [] OTHER -> NoRes
TaggedOf(n, x, ext) ==
  CASE x.d \in {"nstruct", "block", "lblock"} -> TaggedOf(n, x.v, ext)
    [] x.d \in {"some", "none"} -> Fail0
    [] OTHER ->
       LET r == PairsOf(x, ext) IN
       IF r = NoRes THEN Fail0 ELSE [d |-> "map", ps |-> << <<StrD0(T_t), StrD0(n)>> >> \o r[1]]
ReducePs(ps, ext) == [k \in 1..Len(ps) |-> <<Reduce(ps[k][1], ext), Reduce(ps[k][2], ext)>>]
ReduceFs(ps, ext) == [k \in 1..Len(ps) |-> <<ps[k][1], Reduce(ps[k][2], ext)>>]
(* what another serializer makes of data *)
Via(w, x) ==
  CASE w \in {"value", "json"} ->
         LET r == SerV(Reduce(x, TRUE)) IN IF r = NoRes THEN NoRes ELSE Res(DataOf(r[1]))
    [] w = "expr" ->
         LET r == SerE(Reduce(x, FALSE)) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "expr", e |-> r[1]])
    [] w = "hcl" ->
         LET r == SerDoc(Reduce(x, FALSE)) IN IF r = NoRes THEN NoRes ELSE Res(StrD0(FmtBody(r[1], PlainCfg)))
Reduce(x, ext) ==
  CASE x.d \in {"some", "nstruct", "nvar", "block", "lblock"} -> [x EXCEPT !.v = Reduce(@, ext)]
    [] x.d \in {"seq", "tup", "tstruct", "tvar"} -> [x EXCEPT !.xs = [k \in 1..Len(@) |-> Reduce(@[k], ext)]]
    [] x.d = "map" -> [x EXCEPT !.ps = ReducePs(@, ext)]
    [] x.d = "dlblock" -> [x EXCEPT !.v.ps = ReducePs(@, ext)]
    [] x.d \in {"struct", "svar"} -> [x EXCEPT !.ps = ReduceFs(@, ext)]
    [] x.d = "flat" ->
         LET r == PairsOf(Reduce(x.v, ext), ext) IN
         IF r = NoRes THEN Fail0 ELSE [d |-> "map", ps |-> ReducePs(x.ps, ext) \o r[1]]
    [] x.d = "tag" -> TaggedOf(x.n, Reduce(x.v, ext), ext)
    [] x.d \in {"via", "try"} ->
         LET r == Via(x.w, x.v) IN
         IF r = NoRes THEN (IF x.d = "try" THEN UnitD0 ELSE Fail0) ELSE r[1]
    [] x.d \in {"fail", "panic"} -> Fail0
    [] OTHER -> x
SerDocR(x) == SerDoc(Reduce(x, FALSE))
SerER(x) == SerE(Reduce(x, FALSE))
SerVR(x) == SerV(Reduce(x, TRUE))
=============================================================================
