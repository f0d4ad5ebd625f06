------------------------------ MODULE BuildModel ------------------------------
(***************************************************************************)
(* All nodes which are built in up to MaxSteps steps, with what every step   *)
(* does to the node: it sets or adds what it is given and nothing else, so    *)
(* that steps for different parts can change places, and what is built can be *)
(* written and read.  With GEN the steps are printed, to be done by the code. *)
(***************************************************************************)
EXTENDS HclBuild, HclFormat, IOUtils, Json, TLC

CONSTANTS MaxSteps

VARIABLE steps

T(x) == Cp(x)
V(x) == VarE(T(x))
One == NumL([neg |-> FALSE, digs |-> <<1>>, x |-> 1])
Str1 == StrE(T("s t"))
Arr1 == ArrE(<<One>>, FALSE, <<>>)
At1 == AttrS(Id0(T("a")), One)
At2 == AttrS(Id0(T("b")), V("x"))
Bk1 == BlockS(Id0(T("k")), <<LabelS(T("l"))>>, Body0(<<At1>>))
Bk2 == BlockS(Id0(T("a")), <<>>, Body0(<<>>))
LId(x) == IdLabel(T(x))
Strips == {<<a, b>> : a \in BOOLEAN, b \in BOOLEAN}
Lit1 == LitEl(T("t"))
Itp1 == ItpEl(<<FALSE, TRUE>>, V("i"))

Starts ==
  {[o |-> "for", vv |-> T("v"), coll |-> c, ve |-> V("v")] : c \in {V("c"), Arr1}} \cup
  {[o |-> "fn", ns |-> ns, name |-> T("f"), w |-> w] : ns \in {<<>>, <<T("n")>>, <<T("n"), T("m")>>}, w \in {"new", "builder"}} \cup
  {[o |-> "trv", e |-> e, w |-> w] : e \in {V("a"), ParE(One)}, w \in {"new", "builder"}} \cup
  {[o |-> "cond", ce |-> V("c"), te |-> One, fe |-> Str1], [o |-> "var", name |-> T("v")], [o |-> "quoted", txt |-> T("a${b}c")]} \cup
  {[o |-> "un", op |-> op, e |-> V("a")] : op \in {"!", "-"}} \cup
  {[o |-> "bin", l |-> V("a"), op |-> op, r |-> One] :
     op \in {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}} \cup
  {[o |-> "hd", delim |-> T("EOS"), txt |-> T("a ${b}`")]} \cup
  {[o |-> "tpl"], [o |-> "ifd", ic |-> V("c"), it |-> <<Lit1>>], [o |-> "fod", vv |-> T("v"), coll |-> V("c"), ft |-> <<Itp1>>]} \cup
  {[o |-> "attr", name |-> T("a"), e |-> e, w |-> w] : e \in {One, Arr1}, w \in {"new", "pair"}} \cup
  {[o |-> "block", name |-> T("k"), labels |-> <<>>, ss |-> <<>>, w |-> "builder"],
   [o |-> "block", name |-> T("k"), labels |-> <<LabelS(T("l")), LId("m")>>, ss |-> <<At1, Bk1>>, w |-> "triple"],
   [o |-> "block", name |-> T("k"), labels |-> <<>>, ss |-> <<At1, Bk1>>, w |-> "pair"]} \cup
  {[o |-> "body", ss |-> IF w = "builder" THEN <<>> ELSE <<At1, Bk1, At2>>, w |-> w] :
     w \in {"builder", "vec", "slice", "array", "iter", "mut", "one"}}

Adds == {[o |-> "add", w |-> w, ss |-> <<x>>] : w \in {"one", "many"}, x \in {At1, Bk1}} \cup
        {[o |-> "add", w |-> "many", ss |-> ss] : ss \in {<<>>, <<At1, At2>>, <<Bk1, Bk2>>}} \cup
        {[o |-> "add", w |-> w, ss |-> ss] : w \in {"structures"}, ss \in {<<Bk1, At1>>, <<At2>>}}
StepsFor(s) ==
  CASE s.o = "for" -> {[o |-> "kvar", name |-> T("k")], [o |-> "kvar", name |-> T("j")], [o |-> "kexpr", e |-> V("k")],
                       [o |-> "kexpr", e |-> Str1], [o |-> "if", e |-> V("c")], [o |-> "if", e |-> BoolE(TRUE)]} \cup
                      {[o |-> "group", b |-> b] : b \in BOOLEAN}
    [] s.o = "fn" /\ s.w = "builder" -> {[o |-> "arg", e |-> e] : e \in {V("a"), Str1}} \cup {[o |-> "expand", b |-> b] : b \in BOOLEAN}
    [] s.o = "trv" -> {[o |-> "get", name |-> T("b")], [o |-> "asp"], [o |-> "fsp"], [o |-> "idx", e |-> Str1]} \cup
                      (IF s.w = "new" THEN {[o |-> "leg", digs |-> T("0")], [o |-> "leg", digs |-> T("12")]} ELSE {})
    [] s.o = "hd" -> {[o |-> "flush", b |-> b] : b \in BOOLEAN}
    [] s.o = "tpl" -> {[o |-> "lit", txt |-> T("a b")], [o |-> "itp", st |-> <<FALSE, FALSE>>, e |-> V("x")],
                       [o |-> "itp", st |-> <<TRUE, FALSE>>, e |-> V("x")],
                       [o |-> "els", els |-> <<IfEl(V("c"), <<Lit1>>)>>], [o |-> "els", els |-> <<ForEl(Id0(T("v")), V("c"), <<Itp1>>)>>],
                       [o |-> "els", els |-> <<Lit1>>]}
    [] s.o = "ifd" -> {[o |-> "else", els |-> <<Itp1>>]} \cup {[o |-> w, st |-> st] : w \in {"st1", "stelse", "st2"}, st \in Strips}
    [] s.o = "fod" -> {[o |-> "kvar", name |-> T("k")]} \cup {[o |-> w, st |-> st] : w \in {"st1", "st2"}, st \in Strips}
    [] s.o = "block" /\ s.w = "builder" ->
         Adds \cup {[o |-> "labels", w |-> w, labels |-> <<x>>] : w \in {"one", "many"}, x \in {LabelS(T("l")), LId("i")}} \cup
         {[o |-> "labels", w |-> "many", labels |-> <<LabelS(T("p q")), LabelS(<<>>)>>]}
    [] s.o = "body" /\ s.w = "builder" -> Adds
    [] s.o = "body" /\ s.w = "vec" -> {[o |-> "add", w |-> "extend", ss |-> ss] : ss \in {<<At2>>, <<Bk2, At1>>}}
    [] OTHER -> {}

Init == steps \in {<<s>> : s \in Starts}
Next == Len(steps) <= MaxSteps /\ \E s \in StepsFor(steps[1]) : steps' = Append(steps, s)
Spec == Init /\ [][Next]_steps

B == Built(steps)
(* Steps which set or add different parts can change places. *)
Part(s) == CASE s.o \in {"get", "leg", "asp", "fsp", "idx"} -> "tops"
             [] s.o \in {"lit", "itp", "els"} -> "els"
             [] OTHER -> s.o
Setters == {"kvar", "kexpr", "if", "group", "expand", "flush", "else", "st1", "stelse", "st2"}
Swapped(ss, k) == [ss EXCEPT ![k] = ss[k + 1], ![k + 1] = ss[k]]
Independent == \A k \in 2..(Len(steps) - 1) : Part(steps[k]) # Part(steps[k + 1]) => Built(Swapped(steps, k)) = B
(* What is set twice is what was set last. *)
LastCounts == \A k \in 2..(Len(steps) - 1) :
  (steps[k].o \in Setters /\ steps[k].o = steps[k + 1].o) =>
  B = Built(SubSeq(steps, 1, k - 1) \o SubSeq(steps, k + 1, Len(steps)))
(* Expressions can be written and read. *)
Exprs == {"for", "fn", "trv", "cond", "un", "bin", "var", "quoted", "hd"}
Writable == ~(B.k = "fn" /\ B.exp /\ B.args = <<>>) /\ ~(B.k = "for" /\ B.grp /\ ~B.haskey) /\ ~(B.k = "trv" /\ B.tops = <<>>)
Readable == steps[1].o \in Exprs => (Writable =>
  LET r == RParse("expr", Format(B, DefaultCfg)) IN r.t = "ok" /\ r.v = Norm(B))
ReadableBody == steps[1].o = "body" => (Len(steps) = 1 =>
  LET r == RParse("body", Format(B, DefaultCfg)) IN r.t = "ok" /\ r.v = Norm(B))

Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([steps |-> steps])>>)
=============================================================================
