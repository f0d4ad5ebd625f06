------------------------------- MODULE HclAccess -------------------------------
(***************************************************************************)
(* What nodes say they are, and what parts of them they give access to: a     *)
(* node is what its kind says and nothing else, and what it gives access to    *)
(* is the node itself; what is changed there is changed in the node.          *)
(***************************************************************************)
EXTENDS HclRs, HclFormat, FiniteSets

ExprName(k) ==
  CASE k = "num" -> "number" [] k = "arr" -> "array" [] k = "obj" -> "object" [] k = "tpl" -> "string_template"
    [] k = "hd" -> "heredoc_template" [] k = "par" -> "parenthesis" [] k = "var" -> "variable" [] k = "cond" -> "conditional"
    [] k = "fn" -> "func_call" [] k = "trv" -> "traversal" [] k = "un" -> "unary_op" [] k = "bin" -> "binary_op"
    [] k = "for" -> "for_expr" [] OTHER -> k
ExprNames(e) == {ExprName(e.k)} \cup (IF e.k \in {"tpl", "hd"} THEN {"template"} ELSE {})
OneNode(n, name) == <<[n |-> name, v |-> n]>>
StrucName(s) == IF s.k = "attr" THEN "attribute" ELSE "block"
ElName(e) == CASE e.k = "lit" -> "literal" [] e.k = "itp" -> "interpolation" [] OTHER -> "directive"
KeyName(k) == IF k.k = "id" THEN "ident" ELSE "expr"
LabelName(l) == IF l.k = "lid" THEN "ident" ELSE "string"
LabelTxt(l) == IF l.k = "lid" THEN l.id ELSE l.lsv
ValName(v) == CASE v.t = "num" -> "number" [] v.t = "arr" -> "array" [] v.t = "obj" -> "object" [] OTHER -> v.t
(* the attribute with null as value, or the block without labels *)
Changed(s) == IF s.k = "attr" THEN [s EXCEPT !.val = NullE] ELSE [s EXCEPT !.labels = <<>>]
Tab == <<9>>
Decorated(s) == LET c == [Changed(s) EXCEPT !.suf = <<32, 32>>] IN
                IF s.k = "attr" THEN [c EXCEPT !.pre = <<32>>, !.key.suf = Tab] ELSE c
Shown(k) == CASE k.k = "id" -> k.id [] k.k = "str" -> k.sv [] OTHER -> Format(k, DefaultCfg)
=============================================================================
