------------------------------- MODULE TextCheck -------------------------------
(* Observations [s, em, um, ways, edit, rs, val]: a text, what escaping and    *)
(* unescaping its markers makes of it, the places in which it is written as    *)
(* a string or template literal [w, txt, back], the templates it is read as    *)
(* and what it is written as if it is a value.                                 *)
EXTENDS HclFormat, Obs

C == Cases[i]
OkIs(r, v) == r.r = "ok" /\ r.v = v

HeredocText(s) == <<LT, LT>> \o T_for \o <<NL>> \o EscapeMarkers(s) \o <<NL>> \o T_for
WrittenAs(w, s) ==
  CASE w = "edit" -> QuotedText(s)
    [] w = "rs" -> FQuoted(s)
    [] w = "lit" -> EscapeMarkers(s)
    [] w = "hd" -> HeredocText(s)
    [] w = "obj" -> <<LBRC>> \o QuotedText(s) \o <<SPC, EQ, SPC, 49, COMMA, RBRC>>
    [] w = "label" -> T_for \o <<SPC>> \o QuotedText(s) \o <<SPC, LBRC, NL, RBRC, NL>>
    [] w = "rslabel" -> T_for \o <<SPC>> \o FQuoted(s) \o <<SPC, LBRC, RBRC, NL>>
    [] w = "rsattr" -> T_for \o <<SPC, EQ, SPC>> \o FQuoted(s) \o <<NL>>
(* A heredoc ends at the first line which looks like its delimiter. *)
HeredocRead(s) ==
  LET r == ParseNoSpans("expr", HeredocText(s), TRUE) IN
  IF r.t = "ok" /\ r.v.k = "hd" THEN
     IF r.v.els = <<>> THEN [ok |-> TRUE, v |-> <<>>]
     ELSE [ok |-> Len(r.v.els) = 1 /\ r.v.els[1].k = "lit", v |-> r.v.els[1].lv]
  ELSE [ok |-> FALSE]
WayOk(y) ==
  /\ Why(<<y.w, WrittenAs(y.w, C.s), y.txt>>, OkIs(y.txt, WrittenAs(y.w, C.s)))
  /\ Why(<<y.w, "back", y.back>>,
         IF y.w = "hd" THEN LET h == HeredocRead(C.s) IN
                            IF h.ok THEN OkIs(y.back, h.v) ELSE y.back.r = "err"
         ELSE OkIs(y.back, C.s))

TemplatesOk ==
  LET p == Parse("tpl", C.s, TRUE, TRUE) IN
  /\ Why(<<"template", p, C.edit>>, IF p.t = "ok" THEN OkIs(C.edit, p.v.els) ELSE C.edit.r = "err")
  /\ LET q == RParse("tpl", C.s) IN
     \A k \in 1..Len(C.rs) : Why(<<"rs template", k, q, C.rs[k]>>, IF q.t = "ok" THEN OkIs(C.rs[k], q.v.els) ELSE C.rs[k].r = "err")
(* A value is written as a template only if it is one. *)
ValueText == IF IsTemplated(C.s) /\ ParsesAsTpl(C.s) THEN FTemplated(C.s) ELSE FQuoted(C.s)

TextOk ==
  /\ Why(<<"escaped", EscapeMarkers(C.s), C.em>>, C.em = EscapeMarkers(C.s))
  /\ Why(<<"unescaped", UnescapeMarkers(C.s), C.um>>, C.um = UnescapeMarkers(C.s))
  /\ \A k \in 1..Len(C.ways) : WayOk(C.ways[k])
  /\ TemplatesOk
  /\ Why(<<"value", ValueText, C.val>>, OkIs(C.val, ValueText))
Inv == Report(TextOk)
=============================================================================
