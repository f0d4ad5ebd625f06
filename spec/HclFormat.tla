------------------------------ MODULE HclFormat ------------------------------
(***************************************************************************)
(* The formatter of hcl-rs: how trees are laid out under a configuration    *)
(*   [indent: text, dense, arrays, objects, idents: BOOLEAN]                *)
(* where arrays/objects say whether these are written compactly, and idents *)
(* whether object keys are written as identifiers where possible.           *)
(* Every operator returns text; d is the indentation level, g the config.   *)
(***************************************************************************)
EXTENDS HclRs

HexDigitL(x) == IF x < 10 THEN 48 + x ELSE 87 + x
EscCharL(x) ==
  IF x < 32 /\ x \notin {8, 9, 10, 12, 13}
  THEN <<BSL, 117, 48, 48, HexDigitL(x \div 16), HexDigitL(x % 16)>>
  ELSE IF x = 127 THEN <<x>> ELSE EscChar(x)
RECURSIVE EscL(_, _, _)
EscL(s, i, acc) == IF i > Len(s) THEN acc ELSE EscL(s, i + 1, acc \o EscCharL(s[i]))
FQuoted(s) == <<QUOTE>> \o EscL(EscapeMarkers(s), 1, <<>>) \o <<QUOTE>>

(* Does the text start an interpolation or directive anywhere? *)
RECURSIVE TemplatedAt(_, _)
TemplatedAt(s, p) ==
  IF p + 2 > Len(s) THEN FALSE   \* a marker needs something behind it
  ELSE IF IsMarkChar(s[p]) /\ s[p + 1] = s[p] /\ s[p + 2] = LBRC THEN TemplatedAt(s, p + 2)
  ELSE (IsMarkChar(s[p]) /\ s[p + 1] = LBRC) \/ TemplatedAt(s, p + 1)
IsTemplated(s) == TemplatedAt(s, 1)

(* the text of a quoted template *)
FTemplated(txt) ==
  LET r == ParseNoSpans("tpl", txt, FALSE) IN
  IF r.t = "ok" THEN <<QUOTE>> \o EncEls(r.v.els, 1, TRUE, 0, FALSE, <<>>)[1] \o <<QUOTE>>
  ELSE <<QUOTE>> \o txt \o <<QUOTE>>
ParsesAsTpl(txt) == ParseNoSpans("tpl", txt, FALSE).t = "ok"

IsIdentText(s) == s # <<>> /\ IsIdStart(s[1]) /\ \A k \in 2..Len(s) : IsIdCont(s[k])
(* identifiers which mean something else at the start of an object item *)
Reserved == {T_for, T_true, T_false, T_null}
FStrKey(s, g) == IF g.idents /\ IsIdentText(s) /\ s \notin Reserved THEN s ELSE FQuoted(s)

RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n = 0 THEN <<>> ELSE t \o Repeat(t, n - 1)
Ind(d, g) == Repeat(g.indent, d)
Compact(g) == [g EXCEPT !.arrays = TRUE, !.objects = TRUE]
T2(a, b) == <<a, b>>
CommaSp == <<COMMA, SPC>>

RECURSIVE FmtE(_, _, _), FmtSeq(_, _, _, _, _, _), FmtTops(_, _, _, _, _),
          FmtNs(_, _, _)
(* items of an array, separated and followed by *)
FmtSeq(es, k, sep, d, g, acc) ==
  IF k > Len(es) THEN acc
  ELSE FmtSeq(es, k + 1, sep, d, g, acc \o (IF k = 1 THEN <<>> ELSE sep) \o FmtE(es[k], d, g))
FmtKey(k, d, g) == IF k.k = "id" THEN k.id ELSE IF k.k = "str" THEN FStrKey(k.sv, g) ELSE FmtE(k, d, g)
FmtTop(t, d, g) ==
  CASE t.tk = "asp" -> <<DOT, STAR>>
    [] t.tk = "fsp" -> <<LBRK, STAR, RBRK>>
    [] t.tk = "idx" -> <<LBRK>> \o FmtE(t.ix, d, g) \o <<RBRK>>
    [] OTHER -> <<DOT>> \o t.id
FmtTops(ts, k, d, g, acc) == IF k > Len(ts) THEN acc ELSE FmtTops(ts, k + 1, d, g, acc \o FmtTop(ts[k], d, g))
FmtNs(ns, k, acc) == IF k > Len(ns) THEN acc ELSE FmtNs(ns, k + 1, acc \o ns[k].id \o <<COLON, COLON>>)

(* level at which the items of an array or object are written *)
ArrLevel(d, g) == IF g.arrays THEN d ELSE d + 1
ObjLevel(d, g) == IF g.objects THEN d ELSE d + 1
(* ts: the texts of the items *)
RECURSIVE Items0(_, _, _, _, _)
Items0(ts, k, first, sep, acc) ==
  IF k > Len(ts) THEN acc ELSE Items0(ts, k + 1, first, sep, acc \o (IF k = 1 THEN first ELSE sep) \o ts[k])
FmtArr(ts, d, g) ==
  LET nl == <<NL>> \o Ind(d + 1, g) IN
  <<LBRK>> \o (IF g.arrays THEN Items0(ts, 1, <<>>, CommaSp, <<>>) ELSE Items0(ts, 1, nl, <<COMMA>> \o nl, <<>>))
  \o (IF ts = <<>> \/ g.arrays THEN <<>> ELSE <<NL>> \o Ind(d, g)) \o <<RBRK>>
FmtObj(ts, d, g) ==
  LET nl == <<NL>> \o Ind(d + 1, g) IN
  <<LBRC>> \o (IF g.objects THEN Items0(ts, 1, Blank, CommaSp, <<>>) ELSE Items0(ts, 1, nl, nl, <<>>))
  \o (IF ts = <<>> THEN <<>> ELSE IF g.objects THEN Blank ELSE <<NL>> \o Ind(d, g)) \o <<RBRC>>
FItem(k, v) == k \o <<SPC, EQ, SPC>> \o v

FmtHd(e, d, g) ==
  <<LT, LT>> \o (IF e.flush THEN <<MINUS>> ELSE <<>>) \o e.delim \o <<NL>> \o e.txt
  \o (IF e.txt = <<>> \/ e.txt[Len(e.txt)] = NL THEN <<>> ELSE <<NL>>)
  \o (IF e.flush THEN Ind(d, g) ELSE <<>>) \o e.delim

FmtE(e, d, g) ==
  CASE e.k = "null" -> T_null
    [] e.k = "bool" -> IF e.b THEN T_true ELSE T_false
    [] e.k = "num" -> NumText(e.val)
    [] e.k = "str" -> FQuoted(e.sv)
    [] e.k = "var" -> e.id
    [] e.k = "arr" -> FmtArr([k \in 1..Len(e.items) |-> FmtE(e.items[k], ArrLevel(d, g), g)], d, g)
    [] e.k = "obj" -> LET o == ObjLevel(d, g) IN
                      FmtObj([k \in 1..Len(e.ents) |-> FItem(FmtKey(e.ents[k].key, o, g), FmtE(e.ents[k].val, o, g))], d, g)
    [] e.k = "tpl" -> FTemplated(e.txt)
    [] e.k = "hd" -> FmtHd(e, d, g)
    [] e.k = "par" -> <<LPAR>> \o FmtE(e.e, d, g) \o <<RPAR>>
    [] e.k = "trv" -> FmtE(e.e, d, g) \o (IF Apart(e) THEN Blank ELSE <<>>) \o FmtTops(e.tops, 1, d, g, <<>>)
    [] e.k = "fn" -> FmtNs(e.ns, 1, <<>>) \o e.name.id \o <<LPAR>>
                     \o FmtSeq(e.args, 1, CommaSp, d, Compact(g), <<>>)
                     \o (IF e.exp THEN <<DOT, DOT, DOT>> ELSE <<>>) \o <<RPAR>>
    [] e.k = "cond" -> LET c == Compact(g) IN
                       FmtE(e.ce, d, c) \o <<SPC, QUEST, SPC>> \o FmtE(e.te, d, c)
                       \o <<SPC, COLON, SPC>> \o FmtE(e.fe, d, c)
    [] e.k = "un" -> OpText(e.uop) \o FmtE(e.e, d, g)
    [] e.k = "bin" -> FmtE(e.l, d, g) \o Blank \o OpText(e.op.o) \o Blank \o FmtE(e.r, d, g)
    [] e.k = "for" ->
         (IF e.haskey THEN <<LBRC>> ELSE <<LBRK>>) \o T_for \o Blank
         \o (IF e.hask THEN e.kv.id \o CommaSp ELSE <<>>) \o e.vv.id \o Blank \o T_in \o Blank
         \o FmtE(e.coll, d, g) \o <<SPC, COLON, SPC>>
         \o (IF e.haskey THEN FmtE(e.ke, d, g) \o <<SPC, EQ, GT, SPC>> ELSE <<>>)
         \o FmtE(e.ve, d, g) \o (IF e.haskey /\ e.grp THEN <<DOT, DOT, DOT>> ELSE <<>>)
         \o (IF e.hasc THEN Blank \o T_if \o Blank \o FmtE(e.cond, d, g) ELSE <<>>)
         \o (IF e.haskey THEN <<RBRC>> ELSE <<RBRK>>)

-----------------------------------------------------------------------------
(* Structures.  prev: what was written before - "none", "attr", "block" or  *)
(* "open" for the opening brace of the block they belong to.               *)
Newline(prev, next, g) ==
  CASE prev = "open" -> TRUE
    [] prev = "attr" -> ~g.dense /\ next = "block"
    [] prev = "block" -> ~g.dense
    [] OTHER -> FALSE
RECURSIVE FmtSs(_, _, _, _, _, _), FmtLabels(_, _, _)
FmtLabels(ls, k, acc) ==
  IF k > Len(ls) THEN acc
  ELSE FmtLabels(ls, k + 1, acc \o Blank \o (IF ls[k].k = "lstr" THEN FQuoted(ls[k].lsv) ELSE ls[k].id))
FmtS(s, d, g) ==
  Ind(d, g) \o
  (IF s.k = "attr" THEN s.key.id \o <<SPC, EQ, SPC>> \o FmtE(s.val, d, g)
   ELSE s.bid.id \o FmtLabels(s.labels, 1, <<>>) \o <<SPC, LBRC>>
        \o (IF s.body.ss = <<>> THEN <<>>
            ELSE FmtSs(s.body.ss, 1, d + 1, g, "open", <<>>) \o Ind(d, g)) \o <<RBRC>>)
  \o <<NL>>
FmtSs(ss, k, d, g, prev, acc) ==
  IF k > Len(ss) THEN acc
  ELSE FmtSs(ss, k + 1, d, g, ss[k].k,
             acc \o (IF Newline(prev, ss[k].k, g) THEN <<NL>> ELSE <<>>) \o FmtS(ss[k], d, g))
FmtBody(b, g) == FmtSs(b.ss, 1, 0, g, "none", <<>>)

-----------------------------------------------------------------------------
(* Templates whose elements are known. *)
FCtl(st, open, inner) == open \o StripMark(st[1]) \o inner \o StripMark(st[2]) \o <<RBRC>>
FDir(st, inner) == FCtl(st, DirOpen, Blank \o inner \o Blank)
RECURSIVE FmtEls(_, _, _, _)
FmtEl(e, g) ==
  CASE e.k = "lit" -> EscapeMarkers(e.lv)
    [] e.k = "itp" -> FCtl(e.st, ItpOpen, FmtE(e.e, 0, g))
    [] e.k = "ifd" ->
         FDir(e.ist, T_if \o Blank \o FmtE(e.ic, 0, g)) \o FmtEls(e.it, 1, g, <<>>)
         \o (IF e.hase THEN FDir(e.est, T_else) \o FmtEls(e.et, 1, g, <<>>) ELSE <<>>)
         \o FDir(e.nst, T_endif)
    [] e.k = "fod" ->
         FDir(e.fst, T_for \o Blank \o (IF e.hask THEN e.kv.id \o CommaSp ELSE <<>>)
                     \o e.vv.id \o Blank \o T_in \o Blank \o FmtE(e.coll, 0, g))
         \o FmtEls(e.ft, 1, g, <<>>) \o FDir(e.nst, T_endfor)
FmtEls(es, k, g, acc) == IF k > Len(es) THEN acc ELSE FmtEls(es, k + 1, g, acc \o FmtEl(es[k], g))

Format(n, g) ==
  CASE n.k = "body" -> FmtBody(n, g)
    [] n.k = "template" -> FmtEls(n.els, 1, g, <<>>)
    [] OTHER -> FmtE(n, 0, g)

(* Values: strings which contain templates are written as templates. *)
RECURSIVE FmtV(_, _, _)
FmtV(v, d, g) ==
  CASE v.t = "null" -> T_null
    [] v.t = "bool" -> IF v.v THEN T_true ELSE T_false
    [] v.t = "num" -> NumText(v.v)
    [] v.t = "str" -> IF IsTemplated(v.v) /\ ParsesAsTpl(v.v) THEN FTemplated(v.v) ELSE FQuoted(v.v)
    [] v.t = "arr" -> FmtArr([k \in 1..Len(v.v) |-> FmtV(v.v[k], ArrLevel(d, g), g)], d, g)
    [] v.t = "obj" -> FmtObj([k \in 1..Len(v.v) |-> FItem(FStrKey(v.v[k][1], g), FmtV(v.v[k][2], ObjLevel(d, g), g))], d, g)

DefaultCfg == [indent |-> <<SPC, SPC>>, dense |-> FALSE, arrays |-> FALSE, objects |-> FALSE, idents |-> TRUE]

-----------------------------------------------------------------------------
(* What remains the same when a tree is formatted and parsed again: the     *)
(* spelling of keys, negated numbers, and templates which are just strings  *)
(* do not matter, and the last one of equal keys counts.                    *)
Negated(v) == [v EXCEPT !.neg = v.digs # <<>> /\ ~v.neg]
(* the entries with the values of later entries with the same key *)
RECURSIVE Merge(_, _, _)
Merge(ents, k, acc) ==
  IF k > Len(ents) THEN acc
  ELSE LET same == {j \in 1..Len(acc) : acc[j].key = ents[k].key} IN
       Merge(ents, k + 1, IF same = {} THEN Append(acc, ents[k])
                          ELSE [acc EXCEPT ![CHOOSE j \in same : TRUE].val = ents[k].val])
NormKeyOf(k) == IF k.k = "str" /\ IsIdentText(k.sv) /\ k.sv \notin Reserved THEN Id0(k.sv) ELSE k
RECURSIVE Nrm(_), NrmEls(_), NrmS(_)
NrmSeq(es) == [i \in 1..Len(es) |-> Nrm(es[i])]
Nrm(e) ==
  CASE e.k = "obj" -> [e EXCEPT !.ents = Merge([i \in 1..Len(@) |-> [@[i] EXCEPT !.key = NormKeyOf(IF @.k = "id" THEN @ ELSE Nrm(@)), !.val = Nrm(@)]], 1, <<>>)]
    [] e.k = "arr" -> [e EXCEPT !.items = NrmSeq(@)]
    [] e.k = "par" -> [e EXCEPT !.e = Nrm(@)]
    [] e.k = "un" -> LET x == Nrm(e.e) IN
                     IF e.uop = "-" /\ x.k = "num" /\ ~x.val.neg THEN [x EXCEPT !.val = Negated(@)]
                     \* - - 0[a]: neither reading of it has a value
                     ELSE IF e.uop = "-" /\ x.k = "trv" /\ x.e.k = "num" /\ ~x.e.val.neg
                     THEN [x EXCEPT !.e.val = Negated(@)]
                     ELSE [e EXCEPT !.e = x]
    [] e.k = "tpl" -> LET r == ParseNoSpans("tpl", e.txt, FALSE) IN
                      IF r.t = "ok" /\ r.v.els = <<>> THEN StrE(<<>>)
                      ELSE IF r.t = "ok" /\ Len(r.v.els) = 1 /\ r.v.els[1].k = "lit" THEN StrE(r.v.els[1].lv) ELSE e
    [] e.k = "bin" -> [e EXCEPT !.l = Nrm(@), !.r = Nrm(@)]
    [] e.k = "cond" -> [e EXCEPT !.ce = Nrm(@), !.te = Nrm(@), !.fe = Nrm(@)]
    [] e.k = "fn" -> [e EXCEPT !.args = NrmSeq(@)]
    [] e.k = "trv" -> [e EXCEPT !.e = Nrm(@), !.tops = [i \in 1..Len(@) |-> IF @[i].tk = "idx" THEN [@[i] EXCEPT !.ix = Nrm(@)] ELSE @[i]]]
    [] e.k = "for" -> [e EXCEPT !.coll = Nrm(@), !.ke = Nrm(@), !.ve = Nrm(@), !.cond = Nrm(@)]
    [] OTHER -> e
NrmEl(e) ==
  CASE e.k = "lit" -> e
    [] e.k = "itp" -> [e EXCEPT !.e = Nrm(@)]
    [] e.k = "ifd" -> [e EXCEPT !.ic = Nrm(@), !.it = NrmEls(@), !.et = NrmEls(@)]
    [] e.k = "fod" -> [e EXCEPT !.coll = Nrm(@), !.ft = NrmEls(@)]
NrmEls(es) == [i \in 1..Len(es) |-> NrmEl(es[i])]
NrmS(s) == IF s.k = "attr" THEN [s EXCEPT !.val = Nrm(@)]
           ELSE [s EXCEPT !.body.ss = [i \in 1..Len(@) |-> NrmS(@[i])]]
Norm(n) == CASE n.k = "body" -> [n EXCEPT !.ss = [i \in 1..Len(@) |-> NrmS(@[i])]]
             [] n.k = "template" -> [n EXCEPT !.els = NrmEls(@)]
             [] OTHER -> Nrm(n)
=============================================================================
