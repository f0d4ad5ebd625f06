------------------------------- MODULE HclIdent -------------------------------
(***************************************************************************)
(* Identifiers: which texts are identifiers, the identifier closest to a     *)
(* text, and the places of documents in which identifiers are read.          *)
(***************************************************************************)
EXTENDS HclFormat, HclText

(* of a text whose characters k may start or continue an identifier *)
IsIdent(s, St(_), Ct(_)) == s # <<>> /\ St(1) /\ \A k \in 2..Len(s) : Ct(k)
(* What may not occur becomes an underscore; what may only not come first    *)
(* gets one in front.                                                        *)
Sanitized(s, St(_), Ct(_)) ==
  IF s = <<>> THEN <<UNDER>>
  ELSE (IF ~St(1) /\ Ct(1) THEN <<UNDER>> ELSE <<>>)
       \o [k \in 1..Len(s) |-> IF (k = 1 /\ St(1)) \/ Ct(k) THEN s[k] ELSE UNDER]

Words == {T_null, T_true, T_false}
Places == {"key", "block", "label", "var", "attr", "fn", "ns", "objkey", "for", "forkey", "dirfor", "interp", "heredoc"}
(* identifiers which mean something else in a place *)
Not(w) == CASE w \in {"var", "interp"} -> Words
            [] w = "objkey" -> Words \cup {T_for}
            [] OTHER -> {}

ABody == Cp(" = 1") \o <<NL>>
(* the text with an identifier in a place *)
PlaceMode(w) == CASE w \in {"key", "block", "label"} -> "body" [] w \in {"dirfor", "interp"} -> "tpl" [] OTHER -> "expr"
PlaceText(w, s) ==
  CASE w = "key" -> s \o ABody
    [] w = "block" -> s \o Cp(" {}") \o <<NL>>
    [] w = "label" -> Cp("b ") \o s \o Cp(" {}") \o <<NL>>
    [] w = "var" -> s
    [] w = "attr" -> Cp("a.") \o s
    [] w = "fn" -> s \o Cp("()")
    [] w = "ns" -> s \o Cp("::f()")
    [] w = "objkey" -> Cp("{ ") \o s \o Cp(" = 1 }")
    [] w = "for" -> Cp("[for ") \o s \o Cp(" in a : 1]")
    [] w = "forkey" -> Cp("[for ") \o s \o Cp(", v in a : 1]")
    [] w = "dirfor" -> Cp("%{ for ") \o s \o Cp(" in a }%{ endfor }")
    [] w = "interp" -> Cp("${") \o s \o Cp("}")
    [] w = "heredoc" -> Cp("<<") \o s \o <<NL>> \o Cp("?") \o <<NL>> \o s
(* the identifier there, as <<id>> *)
One(q) == IF Len(q) = 1 THEN <<q[1].id>> ELSE <<>>
InExpr(w, e) ==
  CASE w = "var" -> IF e.k = "var" THEN <<e.id>> ELSE <<>>
    [] w = "attr" -> IF e.k = "trv" /\ Len(e.tops) = 1 /\ e.tops[1].tk = "attr" THEN <<e.tops[1].id>> ELSE <<>>
    [] w = "fn" -> IF e.k = "fn" /\ e.ns = <<>> THEN <<e.name.id>> ELSE <<>>
    [] w = "ns" -> IF e.k = "fn" THEN One(e.ns) ELSE <<>>
    [] w = "objkey" -> IF e.k = "obj" /\ e.ents # <<>> /\ e.ents[1].key.k = "id" THEN <<e.ents[1].key.id>> ELSE <<>>
    [] w = "for" -> IF e.k = "for" /\ ~e.hask THEN <<e.vv.id>> ELSE <<>>
    [] w = "forkey" -> IF e.k = "for" /\ e.hask THEN <<e.kv.id>> ELSE <<>>
    [] w = "heredoc" -> IF e.k = "hd" THEN <<e.delim>> ELSE <<>>
InBody(w, ss) ==
  IF Len(ss) # 1 THEN <<>>
  ELSE CASE w = "key" -> IF ss[1].k = "attr" THEN <<ss[1].key.id>> ELSE <<>>
         [] w = "block" -> IF ss[1].k = "block" /\ ss[1].labels = <<>> THEN <<ss[1].bid.id>> ELSE <<>>
         [] w = "label" -> IF ss[1].k = "block" /\ Len(ss[1].labels) = 1 /\ ss[1].labels[1].k = "lid"
                           THEN <<ss[1].labels[1].id>> ELSE <<>>
InTpl(w, els) ==
  IF els = <<>> THEN <<>>
  ELSE CASE w = "dirfor" -> IF els[1].k = "fod" /\ ~els[1].hask THEN <<els[1].vv.id>> ELSE <<>>
         [] w = "interp" -> IF els[1].k = "itp" /\ els[1].e.k = "var" THEN <<els[1].e.id>> ELSE <<>>
Found(w, s) ==
  LET r == ParseNoSpans(PlaceMode(w), PlaceText(w, s), TRUE) IN
  IF r.t # "ok" THEN <<>>
  ELSE CASE PlaceMode(w) = "body" -> InBody(w, r.v.ss)
         [] PlaceMode(w) = "tpl" -> InTpl(w, r.v.els)
         [] OTHER -> InExpr(w, r.v)
=============================================================================
