------------------------------ MODULE HclChars ------------------------------
(***************************************************************************)
(* Characters and texts.  A text is a sequence of Unicode code points.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

NL == 10  CR == 13  TAB == 9  SPC == 32
QUOTE == 34  HASH == 35  DOLLAR == 36  PCT == 37  AMP == 38
LPAR == 40  RPAR == 41  STAR == 42  PLUS == 43  COMMA == 44  MINUS == 45
DOT == 46  SLASH == 47  COLON == 58  LT == 60  EQ == 61  GT == 62
QUEST == 63  BANG == 33  LBRK == 91  BSL == 92  RBRK == 93
LBRC == 123  PIPE == 124  RBRC == 125  TILDE == 126  UNDER == 95

IsSpace0(x) == x = SPC \/ x = TAB                    \* winnow's space0
IsMulti0(x) == x = SPC \/ x = TAB \/ x = CR \/ x = NL \* winnow's multispace0
IsDigit(x)  == x >= 48 /\ x <= 57
IsHex(x)    == IsDigit(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)
HexVal(x)   == IF IsDigit(x) THEN x - 48 ELSE IF x >= 97 THEN x - 87 ELSE x - 55
IsAlpha(x)  == (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122)

(* The non-ASCII characters the verification inputs use, classified by      *)
(* UAX #31: letters may start an identifier, combining marks, digits and    *)
(* the middle dot may only continue one, the others may not occur at all.   *)
XidStartNA    == {233, 223, 945, 20320, 1078, 960, 8488}
XidContinueNA == XidStartNA \cup {769, 183, 1635}

IsIdStart(x) == IsAlpha(x) \/ x = UNDER \/ x \in XidStartNA
IsIdCont(x)  == IsAlpha(x) \/ x = UNDER \/ x = MINUS \/ IsDigit(x) \/ x \in XidContinueNA

(* Unicode White_Space. *)
IsWhite(x) == (x >= 9 /\ x <= 13) \/ x \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (x >= 8192 /\ x <= 8202)

Utf8Len(x) == IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4

IsSurrogate(x) == x >= 55296 /\ x <= 57343

RECURSIVE OffsetsFrom(_, _, _)
OffsetsFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE OffsetsFrom(s, i + 1, Append(acc, acc[i] + Utf8Len(s[i])))
(* byte offset of every position 1..Len(s)+1 *)
Offsets(s) == OffsetsFrom(s, 1, <<0>>)

IsPrefixAt(s, p, lit) ==
  /\ p + Len(lit) - 1 <= Len(s)
  /\ \A i \in 1..Len(lit) : s[p + i - 1] = lit[i]

RECURSIVE FlattenAcc(_, _, _)
FlattenAcc(ss, i, acc) == IF i > Len(ss) THEN acc ELSE FlattenAcc(ss, i + 1, acc \o ss[i])
Flatten(ss) == FlattenAcc(ss, 1, <<>>)

RECURSIVE SpacesAcc(_)
SpacesAcc(n) == IF n <= 0 THEN <<>> ELSE Append(SpacesAcc(n - 1), SPC)
Spaces(n) == SpacesAcc(n)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
