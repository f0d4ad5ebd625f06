-------------------------------- MODULE HclDe --------------------------------
(***************************************************************************)
(* Deserialization: what the types of a program read from documents,        *)
(* expressions and values.  Types are shapes, records                        *)
(*   [s |-> "bool"], "int" [sg: signed, bits], "f64", "char", "str", "unit", *)
(*   "num" and "any" (numbers and values of the crate), "ign" (ignored),     *)
(*   "expr" (expressions of the crate), "opt", "new", "seq" [v],             *)
(*   "tup" [vs], "map" [key, v], "struct" [fs: pairs of a name and a shape], *)
(*   "enum" [vs: pairs of a name and one of                                  *)
(*      [s |-> "unit"], [s |-> "new", v], [s |-> "tup", vs],                 *)
(*      [s |-> "struct", fs]].                                               *)
(* A result is <<>> for an error, and <<data>> otherwise, where data are the *)
(* records of HclSerde, "any" data have the field val: a value.              *)
(***************************************************************************)
EXTENDS HclSerde, HclFloat

RECURSIVE Unpar(_)
Unpar(e) == IF e.k = "par" THEN Unpar(e.e) ELSE e

(* Numbers. *)
FitsInt(v, sg, bits) ==
  LET n == OfDec(v) IN
  IsInt(n) /\ (IF sg THEN Msb(n) <= bits - 1 \/ (n.neg /\ n.m = <<1>> /\ n.e = bits - 1)
               ELSE ~n.neg /\ Msb(n) <= bits)
F64Of(v) == IF ShortDec(v) THEN v ELSE Shortest(RoundN(OfDec(v)))
OfNum(sh, v) ==
  CASE sh.s = "int" -> IF FitsInt(v, sh.sg, sh.bits) THEN Res([d |-> "int", val |-> v]) ELSE NoRes
    [] sh.s = "f64" -> Res([d |-> "float", val |-> F64Of(v)])
    [] sh.s = "num" -> Res([d |-> "num", val |-> v])
AnyV(v) == Res([d |-> "any", val |-> v])
NoneD == [d |-> "none"]
SomeOf(r) == IF r = NoRes THEN NoRes ELSE Res([d |-> "some", v |-> r[1]])
NewOf(r) == IF r = NoRes THEN NoRes ELSE Res([d |-> "nstruct", v |-> r[1]])
Scalars == {"bool", "int", "f64", "num", "char", "str", "unit"}

(* A text, as string or name. *)
VarAt(vs, n) == {j \in 1..Len(vs) : vs[j][1] = n}
UnitVar(vs, n) ==
  IF VarAt(vs, n) = {} THEN NoRes
  ELSE LET w == vs[CHOOSE j \in VarAt(vs, n) : TRUE] IN
       IF w[2].s = "unit" THEN Res([d |-> "uvar", n |-> n]) ELSE NoRes
RECURSIVE DeS(_, _)
DeS(sh, t) ==
  CASE sh.s = "str" -> Res([d |-> "str", s |-> t])
    [] sh.s = "char" -> IF Len(t) = 1 THEN Res([d |-> "char", s |-> t]) ELSE NoRes
    [] sh.s = "any" -> AnyV(VStr(t))
    [] sh.s = "ign" -> Res([d |-> "unit"])
    [] sh.s = "opt" -> SomeOf(DeS(sh.v, t))
    [] sh.s = "new" -> NewOf(DeS(sh.v, t))
    [] sh.s = "enum" -> UnitVar(sh.vs, t)
    [] OTHER -> NoRes

(* Structs and maps from fields: pairs of the text of a key and a result,     *)
(* where D(shape, k) reads the value of the entry k. *)
Missing(sh) == IF sh.s = "opt" THEN Res(NoneD) ELSE NoRes
FieldAt(keys, n) == {k \in 1..Len(keys) : keys[k] = n}

RECURSIVE De(_, _), DeKey(_, _)
DeSeq(sh, es) == All([k \in 1..Len(es) |-> De(sh, es[k])])
DeTup(shs, es) == IF Len(es) < Len(shs) THEN NoRes ELSE All([k \in 1..Len(shs) |-> De(shs[k], es[k])])
KeyText(key) == IF key.k = "id" THEN key.id ELSE KeyOf(EV(key))
(* keys which are arrays or objects are no names *)
NameKeys(es) == \A k \in 1..Len(es) : es[k].key.k = "id" \/ EV(es[k].key).t \notin {"arr", "obj"}
DeFields(fs, es) ==
  IF ~NameKeys(es) THEN NoRes
  ELSE LET keys == [k \in 1..Len(es) |-> KeyText(es[k].key)]
           field(f) == LET at == FieldAt(keys, f[1]) IN
                       IF at = {} THEN Missing(f[2])
                       ELSE IF \E a, b \in at : a # b THEN NoRes
                       ELSE De(f[2], es[CHOOSE k \in at : TRUE].val)
           r == All([j \in 1..Len(fs) |-> field(fs[j])])
       IN IF r = NoRes THEN NoRes ELSE Res([j \in 1..Len(fs) |-> <<fs[j][1], r[1][j]>>])
DeVar(w, e) == \* the variant w = <<name, kind>> with the content e
  CASE w[2].s = "unit" -> IF Unpar(e).k = "null" THEN Res([d |-> "uvar", n |-> w[1]]) ELSE NoRes
    [] w[2].s = "new" -> LET r == De(w[2].v, e) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "nvar", n |-> w[1], v |-> r[1]])
    [] w[2].s = "tup" -> LET x == Unpar(e)
                             r == IF x.k = "arr" THEN DeTup(w[2].vs, x.items) ELSE NoRes
                         IN IF r = NoRes THEN NoRes ELSE Res([d |-> "tvar", n |-> w[1], xs |-> r[1]])
    [] w[2].s = "struct" -> LET x == Unpar(e)
                                r == IF x.k = "obj" THEN DeFields(w[2].fs, x.ents) ELSE NoRes
                            IN IF r = NoRes THEN NoRes ELSE Res([d |-> "svar", n |-> w[1], ps |-> r[1]])
De(sh, e0) ==
  IF sh.s = "expr" THEN Res([d |-> "expr", e |-> e0]) ELSE
  LET e == Unpar(e0) IN
  CASE sh.s = "bool" -> IF e.k = "bool" THEN Res([d |-> "bool", b |-> e.b]) ELSE NoRes
    [] sh.s \in {"int", "f64", "num"} -> IF e.k = "num" THEN OfNum(sh, e.val) ELSE NoRes
    [] sh.s = "str" -> Res([d |-> "str", s |-> IF e.k = "str" THEN e.sv ELSE IF e.k \in {"tpl", "hd"} THEN e.txt ELSE AsInterp(e)])
    [] sh.s = "char" -> IF e.k = "str" THEN DeS(sh, e.sv) ELSE IF e.k \in {"tpl", "hd"} THEN DeS(sh, e.txt) ELSE NoRes
    [] sh.s = "unit" -> IF e.k = "null" THEN Res([d |-> "unit"]) ELSE NoRes
    [] sh.s = "ign" -> Res([d |-> "unit"])
    [] sh.s = "any" -> IF GoodKeys(e) THEN AnyV(EV(e)) ELSE NoRes
    [] sh.s = "opt" -> IF e.k = "null" THEN Res(NoneD) ELSE SomeOf(De(sh.v, e0))
    [] sh.s = "new" -> NewOf(De(sh.v, e0))
    [] sh.s = "seq" -> IF e.k # "arr" THEN NoRes
                       ELSE LET r == DeSeq(sh.v, e.items) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "seq", xs |-> r[1]])
    [] sh.s = "tup" -> IF e.k # "arr" THEN NoRes
                       ELSE LET r == DeTup(sh.vs, e.items) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "tup", xs |-> r[1]])
    [] sh.s = "map" -> IF e.k # "obj" THEN NoRes
                       ELSE LET r == All([k \in 1..Len(e.ents) |->
                                       LET a == DeKey(sh.key, e.ents[k].key) b == De(sh.v, e.ents[k].val) IN
                                       IF a = NoRes \/ b = NoRes THEN NoRes ELSE Res(<<a[1], b[1]>>)])
                            IN IF r = NoRes THEN NoRes ELSE Res([d |-> "map", ps |-> r[1]])
    [] sh.s = "struct" ->
         LET r == IF e.k = "obj" THEN DeFields(sh.fs, e.ents)
                  ELSE IF e.k # "arr" THEN NoRes
                  ELSE LET q == DeTup([j \in 1..Len(sh.fs) |-> sh.fs[j][2]], e.items) IN
                       IF q = NoRes THEN NoRes ELSE Res([j \in 1..Len(sh.fs) |-> <<sh.fs[j][1], q[1][j]>>])
         IN IF r = NoRes THEN NoRes ELSE Res([d |-> "struct", ps |-> r[1]])
    [] sh.s = "enum" ->
         IF e.k = "str" THEN UnitVar(sh.vs, e.sv)
         ELSE IF e.k # "obj" THEN NoRes
         ELSE IF e.ents = <<>> \/ ~NameKeys(SubSeq(e.ents, 1, 1)) THEN NoRes
         ELSE LET n == KeyText(e.ents[1].key) IN
              IF VarAt(sh.vs, n) = {} THEN NoRes
              ELSE DeVar(sh.vs[CHOOSE j \in VarAt(sh.vs, n) : TRUE], e.ents[1].val)
(* Keys: texts are always available from keys, numbers and such only if they  *)
(* are written as such.                                                        *)
DeKey(sh, key) ==
  IF key.k = "id" THEN DeS(sh, key.id)
  ELSE CASE sh.s = "str" -> IF NameKeys(<<[key |-> key]>>) THEN DeS(sh, KeyText(key)) ELSE NoRes
         [] sh.s = "opt" -> IF Unpar(key).k = "null" THEN Res(NoneD) ELSE SomeOf(DeKey(sh.v, key))
         [] sh.s = "new" -> NewOf(DeKey(sh.v, key))
         [] OTHER -> De(sh, key)

(* A whole document: it is an object, whatever it contains. *)
RECURSIVE DeDoc(_, _)
DeDoc(sh, b) ==
  CASE sh.s = "str" -> NoRes
    [] sh.s = "opt" -> SomeOf(DeDoc(sh.v, b))
    [] sh.s = "new" -> NewOf(De(sh.v, JBody(b)))
    [] OTHER -> De(sh, JBody(b))

-----------------------------------------------------------------------------
(* Values. *)
RECURSIVE DeV(_, _)
DeVSeq(sh, xs) == All([k \in 1..Len(xs) |-> DeV(sh, xs[k])])
DeVTup(shs, xs) == IF Len(xs) < Len(shs) THEN NoRes ELSE All([k \in 1..Len(shs) |-> DeV(shs[k], xs[k])])
DeVFields(fs, ps) ==
  LET field(f) == IF Spot(ps, f[1]) = {} THEN Missing(f[2]) ELSE DeV(f[2], ps[CHOOSE k \in Spot(ps, f[1]) : TRUE][2])
      r == All([j \in 1..Len(fs) |-> field(fs[j])])
  IN IF r = NoRes THEN NoRes ELSE Res([j \in 1..Len(fs) |-> <<fs[j][1], r[1][j]>>])
DeVStruct(fs, v) ==
  IF v.t = "obj" THEN DeVFields(fs, v.v)
  ELSE IF v.t # "arr" THEN NoRes
  ELSE LET q == DeVTup([j \in 1..Len(fs) |-> fs[j][2]], v.v) IN
       IF q = NoRes THEN NoRes ELSE Res([j \in 1..Len(fs) |-> <<fs[j][1], q[1][j]>>])
DeVVar(w, v) ==
  CASE w[2].s = "unit" -> NoRes
    [] w[2].s = "new" -> LET r == DeV(w[2].v, v) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "nvar", n |-> w[1], v |-> r[1]])
    [] w[2].s = "tup" -> LET r == IF v.t = "arr" THEN DeVTup(w[2].vs, v.v) ELSE NoRes
                         IN IF r = NoRes THEN NoRes ELSE Res([d |-> "tvar", n |-> w[1], xs |-> r[1]])
    [] w[2].s = "struct" -> LET r == DeVStruct(w[2].fs, v)
                            IN IF r = NoRes THEN NoRes ELSE Res([d |-> "svar", n |-> w[1], ps |-> r[1]])
DeV(sh, v) ==
  CASE sh.s = "bool" -> IF v.t = "bool" THEN Res([d |-> "bool", b |-> v.v]) ELSE NoRes
    [] sh.s \in {"int", "f64", "num"} -> IF v.t = "num" THEN OfNum(sh, v.v) ELSE NoRes
    [] sh.s \in {"str", "char"} -> IF v.t = "str" THEN DeS(sh, v.v) ELSE NoRes
    [] sh.s = "unit" -> IF v.t = "null" THEN Res([d |-> "unit"]) ELSE NoRes
    [] sh.s = "ign" -> Res([d |-> "unit"])
    [] sh.s = "any" -> AnyV(v)
    [] sh.s = "opt" -> IF v.t = "null" THEN Res(NoneD) ELSE SomeOf(DeV(sh.v, v))
    [] sh.s = "new" -> NewOf(DeV(sh.v, v))
    [] sh.s = "seq" -> IF v.t # "arr" THEN NoRes
                       ELSE LET r == DeVSeq(sh.v, v.v) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "seq", xs |-> r[1]])
    [] sh.s = "tup" -> IF v.t # "arr" THEN NoRes
                       ELSE LET r == DeVTup(sh.vs, v.v) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "tup", xs |-> r[1]])
    [] sh.s = "map" -> IF v.t # "obj" THEN NoRes
                       ELSE LET r == All([k \in 1..Len(v.v) |->
                                       LET a == DeS(sh.key, v.v[k][1]) b == DeV(sh.v, v.v[k][2]) IN
                                       IF a = NoRes \/ b = NoRes THEN NoRes ELSE Res(<<a[1], b[1]>>)])
                            IN IF r = NoRes THEN NoRes ELSE Res([d |-> "map", ps |-> r[1]])
    [] sh.s = "struct" -> LET r == DeVStruct(sh.fs, v) IN IF r = NoRes THEN NoRes ELSE Res([d |-> "struct", ps |-> r[1]])
    [] sh.s = "enum" ->
         IF v.t = "str" THEN UnitVar(sh.vs, v.v)
         ELSE IF v.t # "obj" \/ v.v = <<>> THEN NoRes
         ELSE LET n == v.v[1][1] IN
              IF VarAt(sh.vs, n) = {} THEN NoRes
              ELSE DeVVar(sh.vs[CHOOSE j \in VarAt(sh.vs, n) : TRUE], v.v[1][2])

-----------------------------------------------------------------------------
(* Round trips.  Data x of the shape sh are read as Want(sh, x) from what they *)
(* are written to, if they are representable there: in expressions RepE, as a  *)
(* value RepV, under a name in a body RepS, as a document RepDoc.              *)
RECURSIVE Want(_, _), RepE(_, _), RepS(_, _), RepBlk(_, _), RepLbl(_, _), RepDoc(_, _), RepV(_, _)
Marked(x) == x.d \in {"block", "lblock"}
VarOf(sh, n) == (CHOOSE w \in {sh.vs[j] : j \in 1..Len(sh.vs)} : w[1] = n)[2]
Want(sh, x) ==
  IF Marked(x) THEN Want(sh, x.v)
  ELSE CASE sh.s = "num" -> [d |-> "num", val |-> x.val]
    [] sh.s = "any" -> [d |-> "any", val |-> SerV(x)[1]]
    [] sh.s \in {"unit", "ign"} -> [d |-> "unit"]
    [] sh.s = "opt" -> IF x.d = "none" THEN x ELSE [x EXCEPT !.v = Want(sh.v, @)]
    [] sh.s = "new" -> [x EXCEPT !.v = Want(sh.v, @)]
    [] sh.s = "seq" -> [x EXCEPT !.xs = [k \in 1..Len(x.xs) |-> Want(sh.v, x.xs[k])]]
    [] sh.s = "tup" -> [d |-> "tup", xs |-> [k \in 1..Len(x.xs) |-> Want(sh.vs[k], x.xs[k])]]
    [] sh.s = "map" -> [x EXCEPT !.ps = [k \in 1..Len(x.ps) |-> <<Want(sh.key, x.ps[k][1]), Want(sh.v, x.ps[k][2])>>]]
    [] sh.s = "struct" -> [x EXCEPT !.ps = [k \in 1..Len(x.ps) |-> <<x.ps[k][1], Want(sh.fs[k][2], x.ps[k][2])>>]]
    [] sh.s = "enum" ->
         (LET w == VarOf(sh, x.n) IN
         CASE x.d = "uvar" -> x
           [] x.d = "nvar" -> [x EXCEPT !.v = Want(w.v, @)]
           [] x.d = "tvar" -> [x EXCEPT !.xs = [k \in 1..Len(x.xs) |-> Want(w.vs[k], x.xs[k])]]
           [] x.d = "svar" -> [x EXCEPT !.ps = [k \in 1..Len(x.ps) |-> <<x.ps[k][1], Want(w.fs[k][2], x.ps[k][2])>>]])
    [] OTHER -> x
(* Bare keys null, true and false are not read as names, but only as text. *)
Words == {Cp("null"), Cp("true"), Cp("false")}
RECURSIVE NoWord(_)
NoWord(key) ==
  CASE key.d = "uvar" -> key.n \notin Words
    [] key.d = "some" -> LET t == SerE(key.v) IN (t # NoRes /\ t[1].k = "str" => t[1].sv \notin Words) /\ NoWord(key.v)
    [] key.d = "nstruct" -> NoWord(key.v)
    [] OTHER -> TRUE
(* R holds for everything within *)
RepE(sh, x) ==
  IF Marked(x) THEN RepE(sh, x.v)
  ELSE CASE sh.s = "f64" -> x.d # "nan"
    [] sh.s = "opt" -> x.d = "none" \/ (RepE(sh.v, x.v) /\ SerE(x.v) # NoRes /\ Unpar(SerE(x.v)[1]).k # "null")
    [] sh.s = "new" -> RepE(sh.v, x.v)
    [] sh.s = "seq" -> \A k \in 1..Len(x.xs) : RepE(sh.v, x.xs[k])
    [] sh.s = "tup" -> \A k \in 1..Len(x.xs) : RepE(sh.vs[k], x.xs[k])
    [] sh.s = "map" -> \A k \in 1..Len(x.ps) : RepE(sh.key, x.ps[k][1]) /\ NoWord(x.ps[k][1]) /\ RepE(sh.v, x.ps[k][2])
    [] sh.s = "struct" -> \A k \in 1..Len(x.ps) : RepE(sh.fs[k][2], x.ps[k][2])
    [] sh.s = "enum" ->
         sh.vs # <<>> /\
         (LET w == VarOf(sh, x.n) IN
         CASE x.d = "uvar" -> TRUE
           [] x.d = "nvar" -> RepE(w.v, x.v)
           [] x.d = "tvar" -> \A k \in 1..Len(x.xs) : RepE(w.vs[k], x.xs[k])
           [] x.d = "svar" -> \A k \in 1..Len(x.ps) : RepE(w.fs[k][2], x.ps[k][2]))
    [] OTHER -> TRUE
(* values do not keep expressions apart from texts, and their keys are texts  *)
RepV(sh, x) ==
  IF Marked(x) THEN RepV(sh, x.v)
  ELSE CASE sh.s = "f64" -> x.d # "nan"
    [] sh.s = "expr" -> FALSE
    [] sh.s = "opt" -> x.d = "none" \/ (RepV(sh.v, x.v) /\ SerV(x.v) # NoRes /\ SerV(x.v)[1].t # "null")
    [] sh.s = "new" -> RepV(sh.v, x.v)
    [] sh.s = "seq" -> \A k \in 1..Len(x.xs) : RepV(sh.v, x.xs[k])
    [] sh.s = "tup" -> \A k \in 1..Len(x.xs) : RepV(sh.vs[k], x.xs[k])
    [] sh.s = "map" -> \A k \in 1..Len(x.ps) : RepV(sh.key, x.ps[k][1]) /\ RepV(sh.v, x.ps[k][2])
    [] sh.s = "struct" -> \A k \in 1..Len(x.ps) : RepV(sh.fs[k][2], x.ps[k][2])
    [] sh.s = "enum" ->
         sh.vs # <<>> /\
         (LET w == VarOf(sh, x.n) IN
         CASE x.d = "uvar" -> TRUE
           [] x.d = "nvar" -> RepV(w.v, x.v)
           [] x.d = "tvar" -> \A k \in 1..Len(x.xs) : RepV(w.vs[k], x.xs[k])
           [] x.d = "svar" -> \A k \in 1..Len(x.ps) : RepV(w.fs[k][2], x.ps[k][2]))
    [] OTHER -> TRUE
RepS(sh, x) ==
  CASE x.d = "block" -> RepBlk(sh, x.v)
    [] x.d = "lblock" -> RepLbl(sh, x.v)
    [] x.d = "some" /\ sh.s = "opt" -> IF Marked(x.v) THEN RepS(sh.v, x.v) ELSE RepE(sh, x)
    [] OTHER -> RepE(sh, x)
(* the body of one block *)
RepBlk(sh, x) ==
  CASE x.d = "block" -> RepBlk(sh, x.v)
    [] x.d = "lblock" -> RepLbl(sh, x.v)
    [] x.d \in {"some", "nstruct"} /\ sh.s \in {"opt", "new"} -> RepBlk(sh.v, x.v)
    [] sh.s = "struct" -> \A k \in 1..Len(x.ps) : RepS(sh.fs[k][2], x.ps[k][2])
    [] sh.s = "map" -> \A k \in 1..Len(x.ps) : RepE(sh.key, x.ps[k][1]) /\ RepS(sh.v, x.ps[k][2])
    [] sh.s = "enum" /\ x.d = "nvar" -> RepS(VarOf(sh, x.n).v, x.v)
    [] sh.s = "enum" /\ x.d = "svar" -> LET w == VarOf(sh, x.n) IN
                                      \A k \in 1..Len(x.ps) : RepS(w.fs[k][2], x.ps[k][2])
    (* several blocks; a single one is not read as a sequence *)
    [] sh.s = "seq" -> Len(x.xs) > 1 /\ \A k \in 1..Len(x.xs) :
                         x.xs[k].d \in {"struct", "map", "nvar", "svar"} /\ RepBlk(sh.v, x.xs[k])
    [] OTHER -> FALSE
(* blocks with a label each *)
RepLbl(sh, x) ==
  CASE Marked(x) -> RepLbl(sh, x.v)
    [] x.d \in {"some", "nstruct"} /\ sh.s \in {"opt", "new"} -> RepLbl(sh.v, x.v)
    [] sh.s = "struct" -> x.ps # <<>> /\ \A k \in 1..Len(x.ps) : RepBlk(sh.fs[k][2], x.ps[k][2])
    [] sh.s = "map" -> x.ps # <<>> /\ \A k \in 1..Len(x.ps) : RepE(sh.key, x.ps[k][1]) /\ RepBlk(sh.v, x.ps[k][2])
    [] sh.s = "enum" /\ x.d = "nvar" -> RepBlk(VarOf(sh, x.n).v, x.v)
    [] sh.s = "enum" /\ x.d = "svar" -> LET w == VarOf(sh, x.n) IN
                                      x.ps # <<>> /\ \A k \in 1..Len(x.ps) : RepBlk(w.fs[k][2], x.ps[k][2])
    [] OTHER -> FALSE
RepDoc(sh, x) ==
  CASE Marked(x) -> RepDoc(sh, x.v)
    [] x.d \in {"some", "nstruct"} /\ sh.s \in {"opt", "new"} -> RepDoc(sh.v, x.v)
    [] sh.s \in {"struct", "map"} -> RepBlk(sh, x)
    [] sh.s = "any" -> x.d = "map"
    [] sh.s = "enum" -> sh.vs # <<>> /\
         (CASE x.d = "nvar" -> RepS(VarOf(sh, x.n).v, x.v)
           [] x.d = "tvar" -> RepE(sh, x)
           [] x.d = "svar" -> RepBlk(sh, x)
           [] OTHER -> FALSE)
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* Data of another format, read as values, expressions and numbers of the     *)
(* crate: integers of more than 64 bits, bytes, newtypes and variants are     *)
(* none, and keys of objects are told apart by their variant.                *)
RECURSIVE PlainV(_), PlainE(_)
PlainN(x) == IF x.d \in {"int", "float"} THEN Res([t |-> "num", v |-> x.val]) ELSE NoRes
TextOf(x) == IF x.d \in {"char", "str"} THEN Res(x.s) ELSE NoRes
PlainV(x) ==
  CASE x.d = "bool" -> Res(VBool(x.b))
    [] x.d \in {"int", "float"} -> PlainN(x)
    [] x.d \in {"nan", "none", "unit", "ustruct"} -> Res(VNull)
    [] x.d \in {"char", "str"} -> Res(VStr(x.s))
    [] x.d = "some" -> PlainV(x.v)
    [] x.d \in {"seq", "tup", "tstruct"} ->
         LET r == All([k \in 1..Len(x.xs) |-> PlainV(x.xs[k])]) IN IF r = NoRes THEN NoRes ELSE Res(VArr(r[1]))
    [] x.d = "map" -> VObjOf([k \in 1..Len(x.ps) |-> TextOf(x.ps[k][1])], [k \in 1..Len(x.ps) |-> PlainV(x.ps[k][2])])
    [] x.d = "struct" -> VObjOf([k \in 1..Len(x.ps) |-> Res(x.ps[k][1])], [k \in 1..Len(x.ps) |-> PlainV(x.ps[k][2])])
    [] OTHER -> NoRes
PlainKey(x) ==
  IF x.d # "nvar" THEN NoRes
  ELSE IF x.n = Cp("Identifier")
  THEN LET n == TextOf(x.v) IN IF n # NoRes /\ IsIdentText(n[1]) THEN Res(Id0(n[1])) ELSE NoRes
  ELSE IF x.n = Cp("Expression") THEN PlainE(x.v) ELSE NoRes
PlainE(x) ==
  CASE x.d = "bool" -> Res(BoolE(x.b))
    [] x.d \in {"int", "float"} -> Res(NumL(x.val))
    [] x.d \in {"nan", "none", "unit", "ustruct"} -> Res(NullE)
    [] x.d \in {"char", "str"} -> Res(StrE(x.s))
    [] x.d = "some" -> PlainE(x.v)
    [] x.d \in {"seq", "tup", "tstruct"} ->
         LET r == All([k \in 1..Len(x.xs) |-> PlainE(x.xs[k])]) IN IF r = NoRes THEN NoRes ELSE Res(Arr0(r[1]))
    [] x.d = "map" -> ObjOf([k \in 1..Len(x.ps) |-> PlainKey(x.ps[k][1])], [k \in 1..Len(x.ps) |-> PlainE(x.ps[k][2])])
    [] x.d = "struct" -> IF x.ps = <<>> THEN Res(ObjE(<<>>, <<>>)) ELSE NoRes
    [] OTHER -> NoRes
=============================================================================
