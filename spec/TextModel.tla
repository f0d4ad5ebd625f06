------------------------------- MODULE TextModel -------------------------------
(***************************************************************************)
(* All texts over an alphabet of the characters which mean something in      *)
(* strings and templates, built character by character.  Whatever the text,  *)
(* as a string it is written so that it is read back, it never becomes an    *)
(* interpolation or directive, and escaping and unescaping undo each other.  *)
(* With GEN all texts are printed, to be written and read by the code.       *)
(***************************************************************************)
EXTENDS HclFormat, IOUtils, Json, TLC

CONSTANTS MaxLen, Alphabet

VARIABLE text

Init == text = <<>>
Next == Len(text) < MaxLen /\ \E x \in Alphabet : text' = Append(text, x)
Spec == Init /\ [][Next]_text

Lits(s) == IF s = <<>> THEN <<>> ELSE <<LitEl(s)>>
IsE(r, e) == r.t = "ok" /\ r.v = e
Read(mode, s) == ParseNoSpans(mode, s, TRUE)

MarkersBack == UnescapeMarkers(EscapeMarkers(text)) = text
(* Escaping marks nothing twice: what is not escaped yet stays distinguishable. *)
NoMarkers == ~IsTemplated(EscapeMarkers(text))
StringBack == /\ IsE(Read("expr", QuotedText(text)), StrE(text))
              /\ IsE(Read("expr", FQuoted(text)), StrE(text))
LiteralBack == LET r == Read("tpl", EscapeMarkers(text)) IN r.t = "ok" /\ r.v.els = Lits(text)
(* A heredoc keeps any text without a line which looks like its delimiter. *)
HeredocText == <<LT, LT>> \o T_for \o <<NL>> \o EscapeMarkers(text) \o <<NL>> \o T_for
HeredocBack == LET r == Read("expr", HeredocText) IN
               r.t = "ok" /\ r.v.k = "hd" /\ r.v.els = <<LitEl(Append(text, NL))>>
(* Text without markers is text, wherever templates are expected. *)
PlainText == ~IsTemplated(text) =>
  LET r == Read("tpl", text) IN
  \/ r.t = "ok" /\ r.v.els = Lits(UnescapeMarkers(text))
  \/ r.t # "ok" /\ Len(text) >= 2 /\ IsMarkChar(text[Len(text) - 1]) /\ text[Len(text)] = LBRC
(* A template in which only literals were found is text without markers. *)
Templates == LET r == Read("tpl", text) IN
  (r.t = "ok" /\ \A k \in 1..Len(r.v.els) : r.v.els[k].k = "lit")
    => r.v.els = Lits(UnescapeMarkers(text)) /\ ~IsTemplated(text)

Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([s |-> text])>>)
=============================================================================
