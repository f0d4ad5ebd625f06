----------------------------- MODULE EditModel -----------------------------
(***************************************************************************)
(* All histories of up to MaxLen modifications of a few small documents:    *)
(* attribute keys stay unique, and whatever is written parses to the tree   *)
(* that was written.  With GEN the histories are printed, to be replayed    *)
(* against the code.                                                        *)
(***************************************************************************)
EXTENDS HclEdit, HclText, FiniteSets, IOUtils, Json

CONSTANTS MaxLen, Palette

VARIABLES src, tree, hist
vars == <<src, tree, hist>>


(* nodes as the constructors make them: no decor at all *)
FNum(n) == [k |-> "num", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, repr |-> NoDecor,
           val |-> [neg |-> FALSE, digs |-> <<n>>, x |-> 1]]
FId(str) == [k |-> "id", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, id |-> Cp(str)]
FStr(str) == [k |-> "str", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, sv |-> Cp(str)]
FVar(str) == [k |-> "var", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, id |-> Cp(str)]
FPar(e) == [k |-> "par", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, e |-> e]
FLab(str) == [k |-> "lstr", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, lsv |-> Cp(str)]
FAttr(key, n) == [k |-> "attr", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, key |-> FId(key), val |-> FNum(n)]
FBody(ss) == [k |-> "body", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, ss |-> ss, one |-> FALSE, omit |-> FALSE]
FBlock(id, ls, ss) == [k |-> "block", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, bid |-> FId(id),
                       labels |-> ls, body |-> FBody(ss)]
FEnt(key, asg, n, term) == [key |-> key, asg |-> asg, val |-> FNum(n), term |-> term]

BodyDocs == {"", "a = 1`", "a = 1 # c`b {`}`", "b \"l\" {`  a = 1`  b = [a]`}`b {}`# end`", "b { a = 1 }`c = 2",
             "b {`}`b x {`}`a = 1`b \"y\" z {`}`c {`}`b y {`}`"}
TplDocs == {"a = \"\"`", "a = \"x${b}y\"`", "a = \"%{ if c ~} y %{ else }z%{ endif }\"`", "a = \"%{ for k, v in b }${v}%{ endfor }w\"`",
            "a = <<-E`    x ${b}`      y`    E`", "a = <<E`  %{ if b }`  x`  %{ endif }`E`"}
ObjDocs == {"a = {}`", "a = { b = 1, c = 2 }`", "a = {`  b = 1 # c`  \"b\" : 2`}`", "a = [{ b = 1 }, f(b, 1), []]`"}

BodyOps == {
  [o |-> "push", st |-> FAttr("a", 7)], [o |-> "tpush", st |-> FAttr("b", 8)],
  [o |-> "tins", idx |-> 1, st |-> FAttr("a", 9)], [o |-> "ins", idx |-> 1, st |-> FBlock("b", <<FLab("x")>>, <<FAttr("a", 3)>>)],
  [o |-> "tins", idx |-> 3, st |-> FBlock("b", <<>>, <<>>)],
  [o |-> "rem", idx |-> 1], [o |-> "rem", idx |-> 2], [o |-> "pop"],
  [o |-> "rema", key |-> Cp("a")], [o |-> "remb", key |-> Cp("b")], [o |-> "clr"],
  [o |-> "ext", sts |-> <<FAttr("c", 1), FAttr("c", 2), FAttr("a", 3)>>],
  [o |-> "vala", key |-> Cp("a"), ex |-> FPar(FVar("x"))], [o |-> "allv", ex |-> FNum(4)],
  [o |-> "bfrom", way |-> 1, sts |-> <<FAttr("a", 3), FBlock("b", <<>>, <<>>)>>],
  [o |-> "bfrom", way |-> 5, sts |-> <<FAttr("d", 3), FAttr("d", 4)>>],
  [o |-> "omit", flag |-> TRUE], [o |-> "blab", key |-> Cp("b"), lab |-> FLab("y")],
  [o |-> "geta", key |-> Cp("a")], [o |-> "getb", key |-> Cp("b")], [o |-> "len"], [o |-> "intoa"] }
(* operations on the body of the first block *)
InnerOps == {
  [o |-> "push", st |-> FAttr("a", 5)], [o |-> "tpush", st |-> FAttr("z", 5)], [o |-> "rema", key |-> Cp("a")],
  [o |-> "pop"], [o |-> "one", flag |-> TRUE], [o |-> "hasa", key |-> Cp("a")] }
BlockOps == {[o |-> "bbld", way |-> 1], [o |-> "bbld", way |-> 4], [o |-> "lpush", lab |-> FLab("z")],
             [o |-> "haslab", labs |-> <<Cp("x")>>, key |-> Cp("b")]}
FLit(str) == [k |-> "lit", sp |-> <<>>, lv |-> Cp(str)]
FItp(e) == [k |-> "itp", sp |-> <<>>, st |-> <<FALSE, TRUE>>, e |-> e]
ElsOps == {
  [o |-> "xpush", el |-> FLit("  v")], [o |-> "xpush", el |-> FItp(FNum(1))], [o |-> "xins", idx |-> 2, el |-> FItp(FVar("q"))],
  [o |-> "xpop"], [o |-> "xrem", idx |-> 1], [o |-> "xclr"], [o |-> "xext", els |-> <<FLit("$"), FLit("{")>>],
  [o |-> "xget", idx |-> 2], [o |-> "xlen"], [o |-> "xone"], [o |-> "xset", el |-> FLit("s")], [o |-> "xall", txt |-> Cp(" ")],
  [o |-> "xfrom", els |-> <<FItp(FStr("s"))>>, flag |-> TRUE], [o |-> "xfrom", els |-> <<>>, flag |-> FALSE] }
DirOps == {[w |-> w] @@ op : w \in 1..2, op \in ElsOps}
          \cup {[o |-> "dnew"], [o |-> "dels", flag |-> TRUE, els |-> <<FLit("e")>>], [o |-> "dels", flag |-> FALSE]}
          \cup {[o |-> "dpre", w |-> w, pre |-> <<32>>, suf |-> <<32, 32>>, st |-> <<TRUE, FALSE>>] : w \in 1..3}
ExprOps(e) ==
  CASE e.k = "obj" -> {
         [o |-> "oins", ent |-> FEnt(FId("b"), "=", 5, "comma")], [o |-> "oins", ent |-> FEnt(FStr("b"), ":", 6, "none")],
         [o |-> "oins", ent |-> FEnt(FId("d"), "=", 7, "nl")],
         [o |-> "oext", ents |-> <<FEnt(FId("e"), "=", 1, "comma"), FEnt(FId("b"), "=", 2, "comma"), FEnt(FId("e"), ":", 3, "nl")>>],
         [o |-> "ofrom", ents |-> <<FEnt(FId("c"), "=", 8, "nl")>>, flag |-> TRUE],
         [o |-> "ofrom", ents |-> <<FEnt(FStr("c"), "=", 8, "nl")>>, flag |-> FALSE],
         [o |-> "oinfo"], [o |-> "orem", key |-> FId("b")], [o |-> "oreme", key |-> FId("c")], [o |-> "oclr"],
         [o |-> "oval", key |-> FId("b"), ex |-> FPar(FVar("x"))], [o |-> "oget", key |-> FStr("b")] }
    [] e.k = "arr" -> {
         [o |-> "apush", ex |-> FNum(4)], [o |-> "ains", idx |-> 1, ex |-> FNum(5)], [o |-> "ains", idx |-> 2, ex |-> FStr("s")],
         [o |-> "apop"], [o |-> "arem", idx |-> 1], [o |-> "aclr"], [o |-> "atc", flag |-> TRUE],
         [o |-> "aext", exs |-> <<FNum(6), FVar("x")>>], [o |-> "afrom", exs |-> <<FNum(6)>>, flag |-> TRUE],
         [o |-> "afrom", exs |-> <<>>, flag |-> FALSE], [o |-> "aget", idx |-> 2], [o |-> "ainfo"] }
    [] e.k = "fn" -> {
         [o |-> "apush", ex |-> FNum(4)], [o |-> "apop"], [o |-> "arem", idx |-> 1],
         [o |-> "aext", exs |-> <<FNum(6), FVar("x")>>], [o |-> "afrom", exs |-> <<FNum(6)>>, flag |-> TRUE],
         [o |-> "aexp", flag |-> TRUE], [o |-> "ainfo"], [o |-> "isns"], [o |-> "fns", ids |-> <<FId("n"), FId("m")>>],
         [o |-> "atc", flag |-> TRUE] }
    [] e.k \in {"tpl", "hd"} -> ElsOps \cup (IF e.k = "tpl" THEN {[o |-> "xconv"]}
                                              ELSE {[o |-> "hded"], [o |-> "hinfo"], [o |-> "hind", ind |-> 2]})
    [] e.k \in {"ifd", "fod"} -> DirOps
    [] e.k = "lit" -> {[o |-> "lset", txt |-> Cp("  t")]}
    [] e.k = "itp" -> {[o |-> "est", st |-> <<TRUE, TRUE>>]}
    [] OTHER -> {}

Blocks(t) == {k \in 1..Len(t.ss) : t.ss[k].k = "block"}
(* paths of the expressions of the first attribute, two levels deep *)
Deep(t) ==
  IF t.ss = <<>> \/ t.ss[1].k # "attr" THEN {}
  ELSE LET v == t.ss[1].val IN
       {<<1, 1>>} \cup {<<1, 1, k>> : k \in 1..(CASE v.k = "arr" -> Len(v.items) [] v.k = "obj" -> Len(v.ents) [] v.k \in {"tpl", "hd"} -> Len(v.els) [] OTHER -> 0)}
RECURSIVE At0(_, _)
At0(n, path) == IF path = <<>> THEN n ELSE At0(Sub(n, path[1]), Tail(path))
WithPath(op, path) == [path |-> path] @@ op
Ops(t) ==
  IF Palette = "body"
  THEN {WithPath(op, <<>>) : op \in BodyOps}
       \cup (IF Blocks(t) = {} THEN {}
             ELSE LET b == CHOOSE k \in Blocks(t) : \A j \in Blocks(t) : k <= j
                  IN {WithPath(op, <<b, 1>>) : op \in InnerOps} \cup {WithPath(op, <<b>>) : op \in BlockOps})
  ELSE UNION {{WithPath(op, path) : op \in ExprOps(At0(t, path))} : path \in Deep(t)}

Init == /\ src \in {Cp(d) : d \in CASE Palette = "body" -> BodyDocs [] Palette = "expr" -> ObjDocs [] OTHER -> TplDocs}
        /\ tree = Parse("body", src, FALSE, TRUE).v /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops(tree) :
             LET r == Apply(tree, op.path, op) IN
             tree' = r.n /\ hist' = Append(hist, op) /\ src' = src
Spec == Init /\ [][Next]_vars

Unique == UniqueKeys(tree)
(* what is written denotes the tree *)
(* which an expansion of no argument cannot be *)
NoLoneDots == \A p \in Deep(tree) : LET n == At0(tree, p) IN n.k = "fn" /\ n.exp => n.args # <<>>
Faithful == Palette # "tpl" /\ NoLoneDots => LET r == Parse("body", Encode(tree), TRUE, TRUE) IN r.t = "ok" /\ r.v = BareOf(tree)
(* attributes and blocks partition the structures, in order *)
Partition ==
  LET a == BodyOp(tree, [o |-> "attrs"]).r.ns  b == BodyOp(tree, [o |-> "blocks"]).r.ns
  IN Len(a) + Len(b) = Len(tree.ss)
Gen == "GEN" \in DOMAIN IOEnv =>
       (Len(hist) = MaxLen => PrintT(<<"GEN", ToJson([s |-> src, ops |-> hist])>>))
=============================================================================
