---------------------------- MODULE ParseTheory ----------------------------
(***************************************************************************)
(* What the grammar itself guarantees, for every text that a sequence of at *)
(* most MaxLen tokens makes up: a behaviour builds up a text token by token.*)
(***************************************************************************)
EXTENDS HclParser, HclEncode, FiniteSets

CONSTANT MaxLen, ModeC

VARIABLES txt, len
vars == <<txt, len>>

ExprToks == { <<97>>, <<49>>, <<34>>, <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<61>>,
  <<44>>, <<46>>, <<45>>, <<42>>, <<63>>, <<58>>, <<10>>, <<32>>, <<36, 123>>, <<60, 60, 97, 10>>,
  <<102, 111, 114, 32, 97, 32, 105, 110, 32, 97, 58>>, <<126>>, <<233>>, <<35>>, <<61, 62>> }
BodyToks == { <<97>>, <<98>>, <<61>>, <<49>>, <<34>>, <<123>>, <<125>>, <<10>>, <<32>>, <<35>>,
  <<47, 42, 42, 47>>, <<97, 61, 49>>, <<13, 10>>, <<233>>, <<91>>, <<93>> }
TplToks == { <<97>>, <<36, 123>>, <<125>>, <<37, 123>>, <<126>>, <<36>>, <<37>>, <<32>>, <<10>>,
  <<105, 102, 32, 97>>, <<101, 108, 115, 101>>, <<101, 110, 100, 105, 102>>, <<92>>, <<34>>,
  <<102, 111, 114, 32, 97, 32, 105, 110, 32, 97>>, <<101, 110, 100, 102, 111, 114>> }
Toks == CASE ModeC = "expr" -> ExprToks [] ModeC = "body" -> BodyToks [] ModeC = "tpl" -> TplToks

Init == txt = <<>> /\ len = 0
Next == len < MaxLen /\ len' = len + 1 /\ \E t \in Toks : txt' = txt \o t
Spec == Init /\ [][Next]_vars

F == Parse(ModeC, txt, FALSE, FALSE)
B == Parse(ModeC, txt, TRUE, TRUE)

(* There is exactly one reading, with or without decor; positions are in range. *)
Deterministic == F.t = B.t /\ F.p = B.p /\ F.p \in 1..(Len(txt) + 1)
(* Texts which use none of the spellings that are normalised (escapes,      *)
(* carriage returns, line breaks in quoted strings) are reproduced exactly. *)
InText(x) == \E i \in 1..Len(txt) : txt[i] = x
Plain == ~InText(BSL) /\ ~InText(CR) /\ ~(InText(QUOTE) /\ InText(NL))
Lossless == (F.t = "ok" /\ Plain) => Encode(F.v) = txt
(* What is encoded denotes the same tree, and encoding is idempotent. *)
Stable == F.t = "ok" =>
  LET e == Encode(F.v)
      r == Parse(ModeC, e, TRUE, TRUE)
  IN r.t = "ok" /\ r.v = B.v
(* Every node's span lies inside its parent's, and slices of the text.      *)
Spanned(n) == n.sp # <<>> => n.sp[1] <= n.sp[2] /\ n.sp[2] <= Offsets(txt)[Len(txt) + 1]
SpansIn == (F.t = "ok" /\ ModeC # "tpl") => Spanned(F.v)
=============================================================================
