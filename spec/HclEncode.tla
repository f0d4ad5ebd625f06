------------------------------ MODULE HclEncode ------------------------------
(***************************************************************************)
(* Encoding of hcl-edit trees: every node is written between its decor.     *)
(* Decor that was never set (NoDecor) is replaced by the default of the     *)
(* place the node is written to.                                            *)
(***************************************************************************)
EXTENDS HclEscape, HclLines, HclNumber

NoDecor == <<-1>>
Dflt(d, default) == IF d = NoDecor THEN default ELSE d

T1(x) == <<x>>
Blank == <<SPC>>
OpText(o) ==
  CASE o = "==" -> <<61, 61>> [] o = "!=" -> <<33, 61>> [] o = "<=" -> <<60, 61>>
    [] o = ">=" -> <<62, 61>> [] o = "<" -> <<60>> [] o = ">" -> <<62>> [] o = "+" -> <<43>>
    [] o = "-" -> <<45>> [] o = "*" -> <<42>> [] o = "/" -> <<47>> [] o = "%" -> <<37>>
    [] o = "&&" -> <<38, 38>> [] o = "||" -> <<124, 124>> [] o = "!" -> <<33>>

(* How a number 0.digs * 10^x is written: integers in full, other numbers    *)
(* with the fewest digits, in scientific notation when far from 1.           *)
DigTxt(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]
Zeros(n) == [k \in 1..n |-> 48]
RECURSIVE NatTxt(_)
NatTxt(n) == IF n < 10 THEN <<48 + n>> ELSE NatTxt(n \div 10) \o <<48 + (n % 10)>>
IntTxt(n) == IF n < 0 THEN <<45>> \o NatTxt(-n) ELSE NatTxt(n)
NumText(v) ==
  LET n == Len(v.digs)
      d == DigTxt(v.digs)
      dot == <<46>>
  IN (IF v.neg THEN <<45>> ELSE <<>>) \o
     (IF n = 0 THEN <<48>>
      ELSE IF v.x >= n /\ (FitsU64Val(v) \/ FitsI64Val(v)) THEN d \o Zeros(v.x - n)
      ELSE IF 0 < v.x /\ v.x <= 16 THEN SubSeq(d, 1, v.x) \o dot \o SubSeq(d, v.x + 1, n)
      ELSE IF -5 < v.x /\ v.x <= 0 THEN <<48>> \o dot \o Zeros(-v.x) \o d
      ELSE <<d[1]>> \o (IF n = 1 THEN <<>> ELSE dot \o Tail(d)) \o <<101>> \o IntTxt(v.x - 1))

RECURSIVE Enc(_, _, _), EncBare(_), EncList(_, _, _), EncEnts(_, _, _), EncTops(_, _, _),
          EncNs(_, _, _), EncEls(_, _, _, _, _, _)

Deced(n, txt, dp, ds) == Dflt(n.pre, dp) \o txt \o Dflt(n.suf, ds)
EncId(n, dp, ds) == Deced(n, n.id, dp, ds)

(* decorated expression (or object key) *)
Enc(e, dp, ds) == Deced(e, EncBare(e), dp, ds)

StripMark(b) == IF b THEN <<TILDE>> ELSE <<>>
Ctl(st, open, inner) == open \o StripMark(st[1]) \o inner \o StripMark(st[2]) \o <<RBRC>>
DirOpen == <<PCT, LBRC>>
ItpOpen == <<DOLLAR, LBRC>>

(* Template elements.  esc: escape literals (quoted templates), otherwise    *)
(* ind > 0 puts back the indentation.  ls: at the start of a line.          *)
(* Returns <<text, ls>>.                                                    *)
EncLit(v, esc, ind, ls) ==
  LET t == EscapeMarkers(v) IN
  IF esc THEN <<EscapeChars(t), ls>>
  ELSE IF ind > 0 THEN <<IndentBy(t, ind, ~ls), IF t = <<>> THEN ls ELSE EndsNL(t)>>
  ELSE <<t, ls>>
CtlInd(ind, ls) == IF ls THEN Spaces(ind) ELSE <<>>

EncIfIntro(e) == Ctl(e.ist, DirOpen, Dflt(e.ipre, Blank) \o <<105, 102>> \o Enc(e.ic, <<>>, Blank))
EncElse(e) == Ctl(e.est, DirOpen, Dflt(e.epre, Blank) \o <<101, 108, 115, 101>> \o Dflt(e.etr, Blank))
EncEnd(st, pre, kw, tr) == Ctl(st, DirOpen, Dflt(pre, Blank) \o kw \o Dflt(tr, Blank))
EncForIntro(e) ==
  Ctl(e.fst, DirOpen, Dflt(e.fpre, Blank) \o <<102, 111, 114>>
      \o (IF e.hask THEN EncId(e.kv, Blank, <<>>) \o <<COMMA>> ELSE <<>>)
      \o EncId(e.vv, Blank, Blank) \o <<105, 110>> \o Enc(e.coll, Blank, Blank))

EncEl(e, esc, ind, ls) ==
  CASE e.k = "lit" -> EncLit(e.lv, esc, ind, ls)
    [] e.k = "itp" -> <<CtlInd(ind, ls) \o Ctl(e.st, ItpOpen, Enc(e.e, Blank, Blank)), FALSE>>
    [] e.k = "ifd" ->
         LET a == EncEls(e.it, 1, esc, ind, FALSE, <<>>)
             b == IF ~e.hase THEN a
                  ELSE EncEls(e.et, 1, esc, ind, FALSE, a[1] \o CtlInd(ind, a[2]) \o EncElse(e))
         IN <<CtlInd(ind, ls) \o EncIfIntro(e) \o b[1] \o CtlInd(ind, b[2])
              \o EncEnd(e.nst, e.npre, <<101, 110, 100, 105, 102>>, e.ntr), FALSE>>
    [] e.k = "fod" ->
         LET a == EncEls(e.ft, 1, esc, ind, FALSE, <<>>)
         IN <<CtlInd(ind, ls) \o EncForIntro(e) \o a[1] \o CtlInd(ind, a[2])
              \o EncEnd(e.nst, e.npre, <<101, 110, 100, 102, 111, 114>>, e.ntr), FALSE>>
EncEls(els, i, esc, ind, ls, acc) ==
  IF i > Len(els) THEN <<acc, ls>>
  ELSE LET r == EncEl(els[i], esc, ind, ls) IN EncEls(els, i + 1, esc, ind, r[2], acc \o r[1])

EncTemplate(els) == EncEls(els, 1, FALSE, 0, FALSE, <<>>)[1]

EncList(es, i, acc) == \* comma separated expressions
  IF i > Len(es) THEN acc
  ELSE EncList(es, i + 1, acc \o (IF i = 1 THEN Enc(es[1], <<>>, <<>>)
                                  ELSE <<COMMA>> \o Enc(es[i], Blank, <<>>)))
EncKey(k, dp, ds) == IF k.k = "id" THEN EncId(k, dp, ds) ELSE Enc(k, dp, ds)
EncEnts(ents, i, acc) ==
  IF i > Len(ents) THEN acc
  ELSE LET n == ents[i] IN
       EncEnts(ents, i + 1, acc \o EncKey(n.key, <<>>, Blank)
         \o (IF n.asg = "=" THEN <<EQ>> ELSE <<COLON>>) \o Enc(n.val, Blank, <<>>)
         \o (CASE n.term = "comma" -> <<COMMA>> [] n.term = "nl" -> <<NL>>
               [] OTHER -> IF i < Len(ents) THEN <<COMMA>> ELSE <<>>))
EncTop(o, dflt) ==
  Dflt(o.opre, dflt) \o
  (CASE o.tk = "idx" -> <<LBRK>> \o Enc(o.ix, <<>>, <<>>) \o <<RBRK>>
     [] o.tk = "fsp" -> <<LBRK>> \o Deced(o, <<STAR>>, <<>>, <<>>) \o <<RBRK>>
     [] o.tk = "asp" -> <<DOT>> \o Deced(o, <<STAR>>, <<>>, <<>>)
     [] OTHER -> <<DOT>> \o EncId(o, <<>>, <<>>))
EncTops(ops, i, acc) == IF i > Len(ops) THEN acc ELSE EncTops(ops, i + 1, acc \o EncTop(ops[i], <<>>))
(* a legacy index right behind a number would become its fraction *)
Apart(e) == e.e.k = "num" /\ e.tops # <<>> /\ e.tops[1].tk = "leg"
EncTrv(e) ==
  IF e.tops = <<>> THEN <<>>
  ELSE EncTops(e.tops, 2, EncTop(e.tops[1], IF Apart(e) THEN Blank ELSE <<>>))
EncNs(ns, i, acc) ==
  IF i > Len(ns) THEN acc
  ELSE EncNs(ns, i + 1, acc \o EncId(ns[i], <<>>, <<>>) \o <<COLON, COLON>>)

EncForE(e) ==
  LET intro == Dflt(e.ipre, <<>>) \o <<102, 111, 114>>
        \o (IF e.hask THEN EncId(e.kv, Blank, <<>>) \o <<COMMA>> ELSE <<>>)
        \o EncId(e.vv, Blank, Blank) \o <<105, 110>> \o Enc(e.coll, Blank, Blank) \o <<COLON>>
      cond == IF e.hasc THEN Dflt(e.cpre, Blank) \o <<105, 102>> \o Enc(e.cond, Blank, <<>>) ELSE <<>>
  IN IF e.haskey
     THEN <<LBRC>> \o intro \o Enc(e.ke, Blank, Blank) \o <<EQ, GT>> \o Enc(e.ve, Blank, <<>>)
          \o (IF e.grp THEN <<DOT, DOT, DOT>> ELSE <<>>) \o cond \o e.tr \o <<RBRC>>
     ELSE <<LBRK>> \o intro \o Enc(e.ve, Blank, <<>>) \o cond \o <<RBRK>>

EncBare(e) ==
  CASE e.k = "null" -> <<110, 117, 108, 108>>
    [] e.k = "bool" -> IF e.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] e.k = "num" -> IF e.repr = NoDecor THEN NumText(e.val) ELSE e.repr
    [] e.k = "str" -> QuotedText(e.sv)
    [] e.k \in {"var", "id"} -> e.id
    [] e.k = "arr" -> <<LBRK>> \o EncList(e.items, 1, <<>>)
                      \o (IF e.items # <<>> /\ e.tc THEN <<COMMA>> ELSE <<>>) \o e.tr \o <<RBRK>>
    [] e.k = "obj" -> <<LBRC>> \o EncEnts(e.ents, 1, <<>>) \o e.tr \o <<RBRC>>
    [] e.k = "tpl" -> <<QUOTE>> \o EncEls(e.els, 1, TRUE, 0, FALSE, <<>>)[1] \o <<QUOTE>>
    [] e.k = "hd" -> <<LT, LT>> \o (IF e.ind >= 0 THEN <<MINUS>> ELSE <<>>) \o e.delim \o <<NL>>
                     \o EncEls(e.els, 1, FALSE, Max2(e.ind, 0), e.ind > 0, <<>>)[1]
                     \o Dflt(e.tr, <<>>) \o e.delim
    [] e.k = "par" -> <<LPAR>> \o Enc(e.e, <<>>, <<>>) \o <<RPAR>>
    [] e.k = "for" -> EncForE(e)
    [] e.k = "cond" -> Enc(e.ce, <<>>, Blank) \o <<QUEST>> \o Enc(e.te, Blank, Blank) \o <<COLON>>
                       \o Enc(e.fe, Blank, <<>>)
    [] e.k = "fn" -> EncNs(e.ns, 1, <<>>) \o EncId(e.name, <<>>, <<>>) \o <<LPAR>>
                     \o EncList(e.args, 1, <<>>)
                     \o (IF e.args = <<>> THEN <<>>
                         ELSE IF e.exp THEN <<DOT, DOT, DOT>> ELSE IF e.tc THEN <<COMMA>> ELSE <<>>)
                     \o e.tr \o <<RPAR>>
    [] e.k = "un" -> OpText(e.uop) \o Enc(e.e, <<>>, <<>>)
    [] e.k = "bin" -> Enc(e.l, <<>>, <<>>) \o Deced(e.op, OpText(e.op.o), Blank, Blank)
                      \o Enc(e.r, <<>>, <<>>)
    [] e.k = "trv" -> Enc(e.e, <<>>, <<>>) \o EncTrv(e)

-----------------------------------------------------------------------------
RECURSIVE EncSs(_, _, _, _), EncLabels(_, _, _)
EncLabels(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE EncLabels(ls, i + 1, acc \o
         Deced(ls[i], IF ls[i].k = "lstr" THEN QuotedText(ls[i].lsv) ELSE ls[i].id, <<>>, Blank))
EncAttr(a) == EncId(a.key, <<>>, Blank) \o <<EQ>> \o Enc(a.val, Blank, <<>>)
EncBlock(b) ==
  LET d == b.body
      one == d.one /\ (d.ss = <<>> \/ (Len(d.ss) = 1 /\ d.ss[1].k = "attr"))
  IN EncId(b.bid, <<>>, Blank) \o EncLabels(b.labels, 1, <<>>) \o <<LBRC>>
     \o Dflt(d.pre, <<>>)
     \o (IF one THEN (IF d.ss = <<>> THEN <<>>
                      ELSE Deced(d.ss[1], EncAttr(d.ss[1]), Blank, Blank))
         ELSE <<NL>> \o EncSs(d.ss, 1, <<>>, TRUE))
     \o Dflt(d.suf, <<>>) \o <<RBRC>>
EncS(s) == Deced(s, IF s.k = "attr" THEN EncAttr(s) ELSE EncBlock(s), <<>>, <<>>)
EncSs(ss, i, acc, nl) == \* nl: line ending behind the last structure
  IF i > Len(ss) THEN acc
  ELSE EncSs(ss, i + 1, acc \o EncS(ss[i]) \o (IF i < Len(ss) \/ nl THEN <<NL>> ELSE <<>>), nl)
(* Display of a body does write the decor of the body. *)
EncBody(b) == Dflt(b.pre, <<>>) \o EncSs(b.ss, 1, <<>>, ~b.omit) \o Dflt(b.suf, <<>>)

Encode(n) ==
  CASE n.k = "body" -> EncBody(n)
    [] n.k = "template" -> EncTemplate(n.els)
    [] OTHER -> Enc(n, <<>>, <<>>)
=============================================================================
