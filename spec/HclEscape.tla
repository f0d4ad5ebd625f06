------------------------------ MODULE HclEscape ------------------------------
(***************************************************************************)
(* Escaping of template markers and of special characters.                  *)
(***************************************************************************)
EXTENDS HclChars

IsMarkChar(x) == x = DOLLAR \/ x = PCT

RECURSIVE EscM(_, _, _), UnescM(_, _, _)
EscM(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsMarkChar(s[i]) /\ i < Len(s) /\ s[i + 1] = LBRC
  THEN EscM(s, i + 1, acc \o <<s[i], s[i]>>)
  ELSE EscM(s, i + 1, Append(acc, s[i]))
EscapeMarkers(s) == EscM(s, 1, <<>>)

UnescM(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF i + 2 <= Len(s) /\ IsMarkChar(s[i]) /\ s[i + 1] = s[i] /\ s[i + 2] = LBRC
  THEN UnescM(s, i + 3, acc \o <<s[i], LBRC>>)
  ELSE UnescM(s, i + 1, Append(acc, s[i]))
UnescapeMarkers(s) == UnescM(s, 1, <<>>)

HexDigit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
EscChar(x) ==
  CASE x = 8  -> <<BSL, 98>>
    [] x = 9  -> <<BSL, 116>>
    [] x = 10 -> <<BSL, 110>>
    [] x = 12 -> <<BSL, 102>>
    [] x = 13 -> <<BSL, 114>>
    [] x = QUOTE -> <<BSL, QUOTE>>
    [] x = BSL -> <<BSL, BSL>>
    [] x < 32 \/ x = 127 -> <<BSL, 117, 48, 48, HexDigit(x \div 16), HexDigit(x % 16)>>
    [] OTHER -> <<x>>
RECURSIVE EscC(_, _, _)
EscC(s, i, acc) == IF i > Len(s) THEN acc ELSE EscC(s, i + 1, acc \o EscChar(s[i]))
EscapeChars(s) == EscC(s, 1, <<>>)

QuotedText(s) == <<QUOTE>> \o EscapeChars(EscapeMarkers(s)) \o <<QUOTE>>
=============================================================================
