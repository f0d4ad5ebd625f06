------------------------------- MODULE DataModel -------------------------------
(***************************************************************************)
(* All data of a program which are built in up to MaxSize steps, together    *)
(* with their shapes: a step puts what there is into an option, newtype,     *)
(* sequence, tuple, map, struct or variant, or marks it to become a block.   *)
(* Whatever is built, what was written is read back, and all that reads it   *)
(* agrees on what it is.  With GEN all data are printed, to be written and   *)
(* read by the code.  With Blocks the data are instead built of what blocks  *)
(* are made of: each step puts what there is into something which has names, *)
(* and may mark the result, and in the end it is a field of a document.      *)
(***************************************************************************)
EXTENDS HclDe, IOUtils, Json, TLC

CONSTANTS MaxSize, Full, Blocks

VARIABLES data, shape, size
vars == <<data, shape, size>>

T(x) == Cp(x)
Nm(x) == [neg |-> FALSE, digs |-> <<x>>, x |-> 1]
Int0 == [s |-> "int", sg |-> FALSE, bits |-> 8]
Str0 == [s |-> "str"]
Bool0 == [s |-> "bool"]
IntD(v) == [d |-> "int", val |-> v]
StrD(t) == [d |-> "str", s |-> t]
Units == << <<T("a"), [s |-> "unit"]>>, <<T("b"), [s |-> "unit"]>> >>
Base == {
  <<IntD(Nm(7)), Int0>>, <<StrD(T("a")), Str0>>, <<StrD(T("b c")), Str0>>, <<StrD(<<>>), [s |-> "any"]>>,
  <<[d |-> "none"], [s |-> "opt", v |-> Int0]>>, <<[d |-> "uvar", n |-> T("b")], [s |-> "enum", vs |-> Units]>>,
  <<[d |-> "seq", xs |-> <<>>], [s |-> "seq", v |-> Int0]>>,
  <<[d |-> "map", ps |-> <<>>], [s |-> "map", key |-> Str0, v |-> Int0]>>,
  <<[d |-> "struct", ps |-> <<>>], [s |-> "struct", fs |-> <<>>]>>,
  <<[d |-> "expr", e |-> [k |-> "var", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> T("v")]], [s |-> "expr"]>> }
More == {
  <<[d |-> "bool", b |-> TRUE], Bool0>>, <<[d |-> "unit"], [s |-> "unit"]>>, <<[d |-> "char", s |-> T("a")], [s |-> "char"]>>,
  <<[d |-> "nan"], [s |-> "f64"]>>, <<[d |-> "float", val |-> [neg |-> TRUE, digs |-> <<1, 5>>, x |-> 1]], [s |-> "f64"]>> }

Become(d, s) == data' = d /\ shape' = s
InOpt == Become([d |-> "some", v |-> data], [s |-> "opt", v |-> shape])
InNew == Become([d |-> "nstruct", v |-> data], [s |-> "new", v |-> shape])
Seqs == \E n \in {1, 2} : Become([d |-> "seq", xs |-> [k \in 1..n |-> data]], [s |-> "seq", v |-> shape])
Tup == Become([d |-> "tup", xs |-> <<data, IntD(Nm(1))>>], [s |-> "tup", vs |-> <<shape, Int0>>])
Map1 == \E n \in {"a", "b c"} :
  Become([d |-> "map", ps |-> << <<StrD(T(n)), data>> >>], [s |-> "map", key |-> Str0, v |-> shape])
Map2 == Become([d |-> "map", ps |-> << <<[d |-> "uvar", n |-> T("a")], data>>, <<[d |-> "uvar", n |-> T("b")], data>> >>],
               [s |-> "map", key |-> [s |-> "enum", vs |-> Units], v |-> shape])
MapN == Become([d |-> "map", ps |-> << <<IntD(Nm(1)), data>> >>], [s |-> "map", key |-> Int0, v |-> shape])
Struct1 == \E n \in {"a", "b c"} :
  Become([d |-> "struct", ps |-> << <<T(n), data>> >>], [s |-> "struct", fs |-> << <<T(n), shape>> >>])
Struct2 == Become([d |-> "struct", ps |-> << <<T("b"), IntD(Nm(2))>>, <<T("a"), data>> >>],
                  [s |-> "struct", fs |-> << <<T("b"), Int0>>, <<T("a"), shape>> >>])
WithU(w) == [s |-> "enum", vs |-> << <<T("u"), [s |-> "unit"]>>, w>>]
Variants ==
  \/ Become([d |-> "nvar", n |-> T("w"), v |-> data], WithU(<<T("w"), [s |-> "new", v |-> shape]>>))
  \/ Become([d |-> "tvar", n |-> T("w"), xs |-> <<data, IntD(Nm(1))>>], WithU(<<T("w"), [s |-> "tup", vs |-> <<shape, Int0>>]>>))
  \/ Become([d |-> "svar", n |-> T("w"), ps |-> << <<T("a"), data>> >>],
            WithU(<<T("w"), [s |-> "struct", fs |-> << <<T("a"), shape>> >>]>>))
Marks == data.d \in {"seq", "map", "struct", "nvar", "tvar", "svar", "some", "nstruct"} /\
  \E m \in {"block", "lblock"} : Become([d |-> m, v |-> data], shape)

(* Steps of two, for what is nested in blocks. *)
Markers == {"", "block", "lblock"}
Mark(m, x) == IF m = "" THEN x ELSE [d |-> m, v |-> x]
(* of all that is nested four deep, lists of one are enough *)
Two(x, y) == IF MaxSize > 3 THEN <<x>> ELSE <<x, y>>
Into(m, d, s) == Become(Mark(m, d), s)
Nest == \E m \in Markers :
  \/ Into(m, [d |-> "nvar", n |-> T("w"), v |-> data], WithU(<<T("w"), [s |-> "new", v |-> shape]>>))
  \/ Into(m, [d |-> "tvar", n |-> T("w"), xs |-> Two(data, data)], WithU(<<T("w"), [s |-> "tup", vs |-> Two(shape, shape)]>>))
  \/ Into(m, [d |-> "svar", n |-> T("w"), ps |-> << <<T("a"), data>> >>],
           WithU(<<T("w"), [s |-> "struct", fs |-> << <<T("a"), shape>> >>]>>))
  \/ Into(m, [d |-> "seq", xs |-> Two(data, data)], [s |-> "seq", v |-> shape])
  \/ Into(m, [d |-> "map", ps |-> Two(<<StrD(T("a")), data>>, <<StrD(T("x")), data>>)], [s |-> "map", key |-> Str0, v |-> shape])
  \/ Into(m, [d |-> "struct", ps |-> << <<T("a"), data>> >>], [s |-> "struct", fs |-> << <<T("a"), shape>> >>])
  \/ Into(m, [d |-> "some", v |-> data], [s |-> "opt", v |-> shape])

Inner == [d |-> "struct", ps |-> << <<T("v"), IntD(Nm(7))>> >>]
InnerShape == [s |-> "struct", fs |-> << <<T("v"), Int0>> >>]
Start == IF Blocks THEN {<<Mark(m, Inner), InnerShape>> : m \in Markers} ELSE Base \cup (IF Full THEN More ELSE {})
Init == /\ \E b \in Start : data = b[1] /\ shape = b[2]
        /\ size = 1
Next == /\ size < MaxSize /\ size' = size + 1
        /\ IF Blocks THEN Nest ELSE InOpt \/ InNew \/ Seqs \/ Tup \/ Map1 \/ Map2 \/ MapN \/ Struct1 \/ Struct2 \/ Variants \/ Marks
Spec == Init /\ [][Next]_vars

(* the document of which the data are a field *)
Data == IF Blocks THEN [d |-> "struct", ps |-> << <<T("r"), data>> >>] ELSE data
Shape == IF Blocks THEN [s |-> "struct", fs |-> << <<T("r"), shape>> >>] ELSE shape
E == SerE(Data)
V == SerV(Data)
Doc == SerDoc(Data)
(* What was written is read back. *)
ExprBack == E # NoRes /\ RepE(Shape, Data) => De(Shape, E[1]) = Res(Want(Shape, Data))
ValueBack == V # NoRes /\ RepV(Shape, Data) => DeV(Shape, V[1]) = Res(Want(Shape, Data))
DocBack == Doc # NoRes /\ RepDoc(Shape, Data) => DeDoc(Shape, Doc[1]) = Res(Want(Shape, Data))
(* Documents and expressions show what values show. *)
ExprShows == E # NoRes /\ V # NoRes => EV(E[1]) = V[1]
RECURSIVE HasBlocks(_)
HasBlocks(x) ==
  CASE x.d \in {"block", "lblock"} -> TRUE
    [] x.d \in {"some", "nstruct", "nvar"} -> HasBlocks(x.v)
    [] x.d \in {"seq", "tup", "tvar"} -> \E k \in 1..Len(x.xs) : HasBlocks(x.xs[k])
    [] x.d \in {"map", "struct", "svar"} -> \E k \in 1..Len(x.ps) : HasBlocks(x.ps[k][2])
    [] OTHER -> FALSE
(* A sequence of which the parts become structures of one document is no value. *)
RECURSIVE Listed(_)
Listed(x) == x.d \in {"seq", "tup"} \/ (x.d \in {"some", "nstruct"} /\ Listed(x.v))
DocShows == Doc # NoRes /\ V # NoRes /\ ~HasBlocks(Data) /\ ~Listed(Data) => AsValue(Doc[1]) = V[1]

Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([x |-> Data, sh |-> Shape])>>)
=============================================================================
