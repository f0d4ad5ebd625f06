------------------------------ MODULE HclLines ------------------------------
(***************************************************************************)
(* Line-wise operations behind flush (`<<-`) heredocs: the indentation      *)
(* shared by all non-blank lines is removed when parsing and put back when  *)
(* encoding.  A template is a sequence of elements; the only fields used    *)
(* here are k, lv (literal text) and the element bodies of directives.      *)
(***************************************************************************)
EXTENDS HclChars

RECURSIVE SplitLinesAcc(_, _, _, _)
SplitLinesAcc(s, i, b, acc) ==
  IF i > Len(s) THEN (IF b > Len(s) THEN acc ELSE Append(acc, SubSeq(s, b, Len(s))))
  ELSE IF s[i] = NL THEN SplitLinesAcc(s, i + 1, i + 1, Append(acc, SubSeq(s, b, i)))
  ELSE SplitLinesAcc(s, i + 1, b, acc)
SplitLines(s) == SplitLinesAcc(s, 1, 1, <<>>)

EndsNL(s) == Len(s) > 0 /\ s[Len(s)] = NL
BlankLine(l) == EndsNL(l) /\ \A i \in 1..Len(l) : IsWhite(l[i])

RECURSIVE LeadWs(_, _)
LeadWs(l, i) == IF i > Len(l) \/ ~IsWhite(l[i]) THEN i - 1 ELSE LeadWs(l, i + 1)

LineEndLen(l) == IF ~EndsNL(l) THEN (IF Len(l) > 0 /\ l[Len(l)] = CR THEN 1 ELSE 0)
                 ELSE IF Len(l) > 1 /\ l[Len(l) - 1] = CR THEN 2 ELSE 1

DedentLine(l, n) ==
  LET e == LineEndLen(l)
      k == Len(l) - e
  IN SubSeq(l, Min2(n, k) + 1, k) \o SubSeq(l, k + 1, Len(l))

RECURSIVE DedentLines(_, _, _, _, _)
DedentLines(ls, i, n, skip, acc) ==
  IF i > Len(ls) THEN acc
  ELSE DedentLines(ls, i + 1, n, skip,
         acc \o (IF (i = 1 /\ skip) \/ BlankLine(ls[i]) THEN ls[i] ELSE DedentLine(ls[i], n)))
DedentBy(s, n, skip) == DedentLines(SplitLines(s), 1, n, skip, <<>>)

RECURSIVE IndentLines(_, _, _, _, _)
IndentLines(ls, i, n, skip, acc) ==
  IF i > Len(ls) THEN acc
  ELSE IndentLines(ls, i + 1, n, skip,
         acc \o (IF (i = 1 /\ skip) \/ BlankLine(ls[i]) THEN ls[i] ELSE Spaces(n) \o ls[i]))
IndentBy(s, n, skip) == IndentLines(SplitLines(s), 1, n, skip, <<>>)

(* -1: no line has a say *)
RECURSIVE MinLead(_, _, _)
MinLead(ls, i, m) ==
  IF i > Len(ls) THEN m
  ELSE LET k == LeadWs(ls[i], 1)
       IN MinLead(ls, i + 1, IF BlankLine(ls[i]) THEN m ELSE IF m = -1 THEN k ELSE Min2(m, k))
MinLeadWs(s, skip) == MinLead(SplitLines(s), IF skip THEN 2 ELSE 1, -1)

MinOpt(a, b) == IF a = -1 THEN b ELSE IF b = -1 THEN a ELSE Min2(a, b)

(* Indentation of a template: walk the elements in document order, tracking *)
(* whether the next element starts a line.  Returns <<indent, lineStart>>.  *)
RECURSIVE TplIndent(_, _, _, _)
ElemIndent(e, ind, ls) ==
  CASE e.k = "lit" ->
         <<MinOpt(ind, MinLeadWs(e.lv, ~ls)), IF e.lv = <<>> THEN ls ELSE EndsNL(e.lv)>>
    [] e.k = "itp" -> <<IF ls THEN 0 ELSE ind, FALSE>>
    [] e.k = "ifd" ->
         LET a == TplIndent(e.it, 1, IF ls THEN 0 ELSE ind, FALSE)
             b == IF e.hase
                  THEN TplIndent(e.et, 1, IF a[2] THEN 0 ELSE a[1], FALSE)
                  ELSE a
         IN <<IF b[2] THEN 0 ELSE b[1], FALSE>>
    [] e.k = "fod" ->
         LET a == TplIndent(e.ft, 1, IF ls THEN 0 ELSE ind, FALSE)
         IN <<IF a[2] THEN 0 ELSE a[1], FALSE>>
TplIndent(els, i, ind, ls) ==
  IF i > Len(els) THEN <<ind, ls>>
  ELSE LET r == ElemIndent(els[i], ind, ls) IN TplIndent(els, i + 1, r[1], r[2])

(* Removes n characters of indentation.  Returns <<elements, lineStart>>. *)
RECURSIVE TplDedent(_, _, _, _, _)
ElemDedent(e, n, ls) ==
  CASE e.k = "lit" ->
         <<[e EXCEPT !.lv = DedentBy(e.lv, n, ~ls)], IF e.lv = <<>> THEN ls ELSE EndsNL(e.lv)>>
    [] e.k = "itp" -> <<e, FALSE>>
    [] e.k = "ifd" ->
         LET a == TplDedent(e.it, 1, n, FALSE, <<>>)
             b == TplDedent(e.et, 1, n, FALSE, <<>>)
         IN <<[e EXCEPT !.it = a[1], !.et = b[1]], FALSE>>
    [] e.k = "fod" -> <<[e EXCEPT !.ft = TplDedent(e.ft, 1, n, FALSE, <<>>)[1]], FALSE>>
TplDedent(els, i, n, ls, acc) ==
  IF i > Len(els) THEN <<acc, ls>>
  ELSE LET r == ElemDedent(els[i], n, ls) IN TplDedent(els, i + 1, n, r[2], Append(acc, r[1]))

HeredocIndent(els) == TplIndent(els, 1, -1, TRUE)[1]
HeredocDedent(els, n) == IF n <= 0 THEN els ELSE TplDedent(els, 1, n, TRUE, <<>>)[1]
=============================================================================
