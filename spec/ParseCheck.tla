----------------------------- MODULE ParseCheck -----------------------------
(* Observations [m, s, r, enc, tree | off, line, col, lt] of parsing text s. *)
EXTENDS FiniteSets, HclParser, HclEncode, HclText, Obs

Mode == IOEnv.WHAT

C == Cases[i]

(* bare abstract syntax *)
AstOk == LET r == Parse(C.m, C.s, TRUE, TRUE) IN
  IF r.t = "ok" THEN C.r = "ok" /\ C.tree = r.v ELSE C.r = "err"
Accepts == LET r == Parse(C.m, C.s, TRUE, TRUE) IN
  C.r = IF r.t = "ok" THEN "ok" ELSE "err"
DecorOk == LET r == Parse(C.m, C.s, FALSE, TRUE) IN
  IF r.t = "ok" THEN C.r = "ok" /\ C.tree = r.v ELSE C.r = "err"
(* Encoding a parsed text gives the text back: what the encoder writes is    *)
(* what the specification says it writes, and that is the text itself unless *)
(* it uses a spelling which is known to be normalised.                       *)
InText(s, x) == \E k \in 1..Len(s) : s[k] = x
Respelled(m, s) ==
  \/ InText(s, BSL)                         \* escape sequences
  \/ InText(s, CR)                          \* CRLF line ends
  \/ InText(s, QUOTE) /\ InText(s, NL)      \* line breaks in quoted strings
  \/ InText(s, TAB) /\ InText(s, LT)        \* tabs as indentation of flush heredocs
  \/ InText(s, TAB) /\ InText(s, QUOTE)     \* control characters in quoted strings
  \/ HasDuplicateKeys(m, s)
SameTree(m, a, b) == LET x == Parse(m, a, TRUE, TRUE)  y == Parse(m, b, TRUE, TRUE) IN
  x.t = "ok" /\ y.t = "ok" /\ x.v = y.v
(* a literal that ends in an escaped marker cannot be written *)
Unwritable(s) == InText(s, BSL) /\ InText(s, 117) /\ InText(s, LBRC)
EncOk == LET r == Parse(C.m, C.s, FALSE, FALSE) IN
  IF r.t # "ok" THEN C.r = "err"
  ELSE /\ C.r = "ok"
       /\ C.enc = Encode(r.v)
       /\ C.enc = C.s \/ Respelled(C.m, C.s)
       /\ C.enc = C.s \/ Unwritable(C.s) \/ SameTree(C.m, C.s, C.enc)
(* the ideal, for single inputs *)
EncIdeal == C.r = "ok" => C.enc = C.s
EncSame == C.r = "ok" => SameTree(C.m, C.s, C.enc)

(* What is reported for an error at position p: offsets are clamped to the   *)
(* last byte, so that the end of a text still belongs to its last line.     *)
RECURSIVE LineStart(_, _)
LineStart(s, p) == IF p = 1 \/ s[p - 1] = NL THEN p ELSE LineStart(s, p - 1)
RECURSIVE LineStop(_, _)
LineStop(s, p) == IF p > Len(s) \/ s[p] = NL THEN p ELSE LineStop(s, p + 1)
Loc(s, p, offs) ==
  LET n == Len(s)
      q == IF n = 0 THEN 1 ELSE Min2(p, n)
      b == LineStart(s, q)
  IN [off |-> IF n = 0 THEN 0 ELSE Min2(offs[p], offs[n + 1] - 1),
      line |-> 1 + Cardinality({k \in 1..(b - 1) : s[k] = NL}),
      col |-> p - b + 1,
      lt |-> SubSeq(s, b, LineStop(s, b) - 1)]
(* The text shown to users quotes the line, with a mark below the column.     *)
RECURSIVE DecimalText(_)
DecimalText(n) == IF n < 10 THEN <<48 + n>> ELSE DecimalText(n \div 10) \o <<48 + (n % 10)>>
Shown(c) ==
  LET l == DecimalText(c.line)
      gap == Spaces(Len(l))
  IN gap \o Cp("--> HCL parse error in line ") \o l \o Cp(", column ") \o DecimalText(c.col) \o <<NL>>
     \o gap \o Cp(" |") \o <<NL>>
     \o l \o Cp(" | ") \o c.lt \o <<NL>>
     \o gap \o Cp(" | ") \o Spaces(c.col - 1) \o Cp("^---") \o <<NL>>
     \o gap \o Cp(" |") \o <<NL>>
     \o gap \o Cp(" = ") \o c.msg
ErrShown == /\ C.msg # <<>>
            /\ Why(<<"shown", C.txt>>, C.txt = Shown(C))
            /\ "said" \in DOMAIN C => \A k \in 1..Len(C.said) : C.said[k] = C.txt
ErrPos == LET r == Parse(C.m, C.s, TRUE, TRUE) IN
  IF r.t = "ok" THEN TRUE
  ELSE /\ C.r = "err"
       /\ ErrShown
       /\ LET at == [off |-> C.off, line |-> C.line, col |-> C.col, lt |-> C.lt]
              o == Offsets(C.s)
          IN IF r.t = "cut" THEN at = Loc(C.s, r.p, o)
             ELSE LET last == Max2(o[Len(C.s) + 1] - 1, 0) IN
                  \E p \in {q \in 1..r.p : Min2(o[q], last) = C.off} : at = Loc(C.s, p, o)

CaseOk == CASE Mode = "ast" -> AstOk
            [] Mode = "accept" -> Accepts
            [] Mode = "decor" -> DecorOk
            [] Mode = "enc" -> EncOk
            [] Mode = "ideal" -> EncIdeal
            [] Mode = "same" -> EncSame
            [] Mode = "errpos" -> ErrPos
Inv == Report(CaseOk)
=============================================================================
