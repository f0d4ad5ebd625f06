------------------------------ MODULE HclParser ------------------------------
(***************************************************************************)
(* The HCL native syntax as understood by hcl-edit: an ordered-choice       *)
(* (PEG) grammar over texts, with                                           *)
(*   - the abstract syntax tree it denotes,                                 *)
(*   - the whitespace/comments ("decor") and byte span of every node,       *)
(*   - for rejected texts the position at which parsing stopped and whether *)
(*     an alternative could still have been tried ("bt") or not ("cut").    *)
(*                                                                          *)
(* c is the parse context [s: text, n: its length, off: byte offsets].      *)
(* p is a position 1..n+1.  A result is [t: "ok"|"bt"|"cut", p, v].         *)
(***************************************************************************)
EXTENDS HclChars, HclLines, HclFloat, TLC

(* bare: leave out decor and spans.  hide: leave out what cannot be observed *)
(* through the public interface other than in the encoded text.             *)
Ctx(s, bare, hide) ==
  [s |-> s, n |-> Len(s), off |-> IF bare THEN <<>> ELSE Offsets(s), bare |-> bare, hide |-> hide,
   dups |-> FALSE, spans |-> ~bare]

Ok(p, v) == [t |-> "ok", p |-> p, v |-> v]
Bt(p)    == [t |-> "bt", p |-> p, v |-> <<>>]
Cut(p)   == [t |-> "cut", p |-> p, v |-> <<>>]
IsOk(r)  == r.t = "ok"
(* sequencing: go on with F after success, pass failures through *)
Then(r, F(_)) == IF r.t = "ok" THEN F(r) ELSE r
(* cut_err *)
CutErr(r) == IF r.t = "bt" THEN Cut(r.p) ELSE r
(* opt: a backtracking failure becomes "absent" without consuming anything *)
Opt(r, p, absent) == IF r.t = "bt" THEN Ok(p, absent) ELSE r

At(c, p) == IF p <= c.n THEN c.s[p] ELSE -1
Has(c, p, k) == p + k - 1 <= c.n
Txt(c, a, b) == SubSeq(c.s, a, b - 1)
Span(c, a, b) == IF ~c.spans THEN <<>> ELSE <<c.off[a], c.off[b]>>
DTxt(c, a, b) == IF c.bare THEN <<>> ELSE SubSeq(c.s, a, b - 1)   \* decor
NoSpan == <<>>
Lit(c, p, lit) == IF IsPrefixAt(c.s, p, lit) THEN Ok(p + Len(lit), <<>>) ELSE Bt(p)
Chr(c, p, ch) == IF At(c, p) = ch THEN Ok(p + 1, <<>>) ELSE Bt(p)
CutChr(c, p, ch) == IF At(c, p) = ch THEN Ok(p + 1, <<>>) ELSE Cut(p)
Fail(c, p) == Bt(p)

T_for == <<102, 111, 114>>
T_in == <<105, 110>>
T_if == <<105, 102>>
T_else == <<101, 108, 115, 101>>
T_endif == <<101, 110, 100, 105, 102>>
T_endfor == <<101, 110, 100, 102, 111, 114>>
T_null == <<110, 117, 108, 108>>
T_true == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>

-----------------------------------------------------------------------------
(* Trivia *)

RECURSIVE SkipSpace(_, _), SkipMulti(_, _), TillEol(_, _), FindClose(_, _)
SkipSpace(c, p) == IF p <= c.n /\ IsSpace0(c.s[p]) THEN SkipSpace(c, p + 1) ELSE p
SkipMulti(c, p) == IF p <= c.n /\ IsMulti0(c.s[p]) THEN SkipMulti(c, p + 1) ELSE p
(* end of the line, 0 if a lone carriage return is in the way *)
TillEol(c, p) ==
  IF p > c.n \/ c.s[p] = NL THEN p
  ELSE IF c.s[p] = CR THEN (IF At(c, p + 1) = NL THEN p ELSE 0)
  ELSE TillEol(c, p + 1)
FindClose(c, p) ==
  IF p + 1 > c.n THEN 0
  ELSE IF c.s[p] = STAR /\ c.s[p + 1] = SLASH THEN p + 2 ELSE FindClose(c, p + 1)

LineComment(c, p) == \* end position, 0 if there is none
  IF At(c, p) = HASH THEN TillEol(c, p + 1)
  ELSE IF At(c, p) = SLASH /\ At(c, p + 1) = SLASH THEN TillEol(c, p + 2)
  ELSE 0
InlineComment(c, p) ==
  IF At(c, p) = SLASH /\ At(c, p + 1) = STAR THEN FindClose(c, p + 2) ELSE 0
Comment(c, p) ==
  LET l == LineComment(c, p) IN IF l # 0 THEN l ELSE InlineComment(c, p)

RECURSIVE WsMore(_, _), SpMore(_, _)
WsMore(c, p) == LET q == Comment(c, p) IN IF q = 0 THEN p ELSE WsMore(c, SkipMulti(c, q))
SpMore(c, p) == LET q == InlineComment(c, p) IN IF q = 0 THEN p ELSE SpMore(c, SkipSpace(c, q))
Ws(c, p) == WsMore(c, SkipMulti(c, p))
Sp(c, p) == SpMore(c, SkipSpace(c, p))
WsOrSp(c, p, nl) == IF nl THEN Ws(c, p) ELSE Sp(c, p)
OptLineComment(c, p) == LET l == LineComment(c, p) IN IF l = 0 THEN p ELSE l

LineEnding(c, p) ==
  IF At(c, p) = NL THEN Ok(p + 1, <<>>)
  ELSE IF At(c, p) = CR /\ At(c, p + 1) = NL THEN Ok(p + 2, <<>>)
  ELSE Bt(p)

-----------------------------------------------------------------------------
(* Identifiers, strings *)

RECURSIVE IdentEnd(_, _)
IdentEnd(c, p) == IF p <= c.n /\ IsIdCont(c.s[p]) THEN IdentEnd(c, p + 1) ELSE p
StrIdent(c, p) ==
  IF p <= c.n /\ IsIdStart(c.s[p])
  THEN LET q == IdentEnd(c, p + 1) IN Ok(q, Txt(c, p, q))
  ELSE Bt(p)

RECURSIVE HexRun(_, _, _)
HexRun(c, p, k) == IF k > 0 /\ p <= c.n /\ IsHex(c.s[p]) THEN HexRun(c, p + 1, k - 1) ELSE p
RECURSIVE HexNum(_, _, _, _)
HexNum(c, p, q, acc) ==
  IF p = q THEN acc
  ELSE HexNum(c, p + 1, q, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(c.s[p]))
HexEscape(c, p, k) ==
  LET q == HexRun(c, p, k)
      x == HexNum(c, p, q, 0)
  IN IF q # p + k \/ x > 1114111 \/ IsSurrogate(x) THEN Cut(p) ELSE Ok(q, <<x>>)

Escape(c, p) == \* p is behind the backslash
  LET x == At(c, p) IN
  CASE x = -1  -> Bt(p)
    [] x = 110 -> Ok(p + 1, <<NL>>)
    [] x = 114 -> Ok(p + 1, <<CR>>)
    [] x = 116 -> Ok(p + 1, <<TAB>>)
    [] x = BSL -> Ok(p + 1, <<BSL>>)
    [] x = QUOTE -> Ok(p + 1, <<QUOTE>>)
    [] x = SLASH -> Ok(p + 1, <<SLASH>>)
    [] x = 98  -> Ok(p + 1, <<8>>)
    [] x = 102 -> Ok(p + 1, <<12>>)
    [] x = 117 -> HexEscape(c, p + 1, 4)
    [] x = 85  -> HexEscape(c, p + 1, 8)
    [] OTHER   -> Cut(p + 1)

EscMarker(c, p) == \* $${ or %%{
  /\ At(c, p) \in {DOLLAR, PCT} /\ At(c, p + 1) = c.s[p] /\ At(c, p + 2) = LBRC
Marker(c, p) == At(c, p) \in {DOLLAR, PCT} /\ At(c, p + 1) = LBRC

(* one or more fragments of a quoted string *)
RECURSIVE Quoted(_, _, _, _)
Quoted(c, p, acc, first) ==
  LET stop == IF first THEN Bt(p) ELSE Ok(p, acc)
      x == At(c, p)
  IN IF x = -1 \/ x = QUOTE THEN stop
     ELSE IF EscMarker(c, p) THEN Quoted(c, p + 3, acc \o <<x, LBRC>>, FALSE)
     ELSE IF Marker(c, p) THEN stop
     ELSE IF x = BSL THEN
       LET r == Escape(c, p + 1) IN
       IF r.t = "ok" THEN Quoted(c, r.p, acc \o r.v, FALSE)
       ELSE IF r.t = "cut" THEN r
       ELSE IF first THEN r ELSE Ok(p, acc)
     ELSE Quoted(c, p + 1, Append(acc, x), FALSE)

(* a heredoc ends at a line ending followed by space and the delimiter *)
DelimLine(c, p, delim) ==
  LET q == SkipSpace(c, p) IN
  /\ IsPrefixAt(c.s, q, delim)
  /\ LET x == At(c, q + Len(delim)) IN x = -1 \/ ~IsIdCont(x)
HeredocEnd(c, p, delim) ==
  LET e == LineEnding(c, p) IN e.t = "ok" /\ DelimLine(c, e.p, delim)

(* one or more fragments of a raw template literal; delim = <<>> outside of *)
(* heredocs                                                                 *)
RECURSIVE RawLit(_, _, _, _, _)
RawLit(c, p, acc, first, delim) ==
  LET x == At(c, p) IN
  IF x # -1 /\ EscMarker(c, p) THEN RawLit(c, p + 3, acc \o <<x, LBRC>>, FALSE, delim)
  ELSE IF x = -1 \/ Marker(c, p) \/ (delim # <<>> /\ HeredocEnd(c, p, delim))
  THEN (IF first THEN Bt(p) ELSE Ok(p, acc))
  ELSE RawLit(c, p + 1, Append(acc, x), FALSE, delim)

Str(c, p) ==
  Then(Chr(c, p, QUOTE), LAMBDA a :
  Then(Opt(Quoted(c, a.p, <<>>, TRUE), a.p, <<>>), LAMBDA b :
  Then(Chr(c, b.p, QUOTE), LAMBDA e : Ok(e.p, b.v))))

-----------------------------------------------------------------------------
(* Nodes.  pre/suf are decor texts, sp is the byte span.                    *)

NSpan(v, sp) == [v EXCEPT !.sp = sp]
NPre(v, pre) == [v EXCEPT !.pre = pre]
NSuf(v, suf) == [v EXCEPT !.suf = suf]
Deco(c, a, b, e, f, v) == \* decorated(): prefix [a,b), node [b,e), suffix [e,f)
  [v EXCEPT !.sp = Span(c, b, e), !.pre = DTxt(c, a, b), !.suf = DTxt(c, e, f)]
PreDeco(c, a, b, e, v) == [v EXCEPT !.sp = Span(c, b, e), !.pre = DTxt(c, a, b)]
SufDeco(c, b, e, f, v) == [v EXCEPT !.sp = Span(c, b, e), !.suf = DTxt(c, e, f)]

Id0(txt) == [k |-> "id", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> txt]
NoId == Id0(<<>>)

NullE == [k |-> "null", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>]
BoolE(b) == [k |-> "bool", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, b |-> b]
NumE(c, repr) == [k |-> "num", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
               repr |-> IF c.bare THEN <<>> ELSE repr,
               val |-> LitVal(repr)]
StrE(v) == [k |-> "str", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, sv |-> v]
VarE(v) == [k |-> "var", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> v]
ArrE(items, tc, tr) == [k |-> "arr", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                        items |-> items, tc |-> tc, tr |-> tr]
ObjE(ents, tr) == [k |-> "obj", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                   ents |-> ents, tr |-> tr]
TplE(els) == [k |-> "tpl", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, els |-> els]
HdE(delim, ind, els, tsp, tr) ==
  [k |-> "hd", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, delim |-> delim, ind |-> ind,
   els |-> els, tsp |-> tsp, tr |-> tr]
ParE(e) == [k |-> "par", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, e |-> e]
UnE(op, osp, e) == [k |-> "un", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                    uop |-> op, osp |-> osp, e |-> e]
BinE(l, op, r) == [k |-> "bin", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                   l |-> l, op |-> op, r |-> r]
OpN(o) == [k |-> "op", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, o |-> o]
CondE(a, b, d) == [k |-> "cond", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                   ce |-> a, te |-> b, fe |-> d]
TrvE(e, ops) == [k |-> "trv", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, e |-> e, tops |-> ops]
FnE(ns, name, args, exp, tc, tr) ==
  [k |-> "fn", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
   ns |-> ns, name |-> name, args |-> args, exp |-> exp, tc |-> tc, tr |-> tr]
(* traversal operators; tk: attr, idx, leg, asp, fsp.  opre/osp belong to   *)
(* the operator itself, pre/suf/sp to what it contains                      *)
TopId(tk, id) == [tk |-> tk, k |-> "top", opre |-> <<>>, osp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                  sp |-> NoSpan, id |-> id]
TopIx(e) == [tk |-> "idx", k |-> "top", opre |-> <<>>, osp |-> NoSpan, ix |-> e]
(* for expressions *)
ForE(isp, ipre, hask, kv, vv, coll, haskey, ke, ve, grp, hasc, cond, csp, cpre, tr) ==
  [k |-> "for", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, isp |-> isp, ipre |-> ipre,
   hask |-> hask, kv |-> kv, vv |-> vv, coll |-> coll, haskey |-> haskey, ke |-> ke,
   ve |-> ve, grp |-> grp, hasc |-> hasc, cond |-> cond, csp |-> csp, cpre |-> cpre, tr |-> tr]

(* template elements *)
LitEl(v) == [k |-> "lit", sp |-> NoSpan, lv |-> v]
ItpEl(st, e) == [k |-> "itp", sp |-> NoSpan, st |-> st, e |-> e]

-----------------------------------------------------------------------------
(* Operator precedence: all operators are left-associative. *)
Prec(o) == CASE o \in {"*", "/", "%"} -> 6
             [] o \in {"+", "-"} -> 5
             [] o \in {"<", "<=", ">", ">="} -> 4
             [] o \in {"==", "!="} -> 3
             [] o = "&&" -> 2
             [] o = "||" -> 1

(* last position of the weakest operator in ops[a..b] *)
RECURSIVE Weakest(_, _, _, _)
Weakest(ops, i, b, best) ==
  IF i > b THEN best
  ELSE Weakest(ops, i + 1, b, IF Prec(ops[i].o) <= Prec(ops[best].o) THEN i ELSE best)
(* terms[a..b+1] joined by ops[a..b] *)
RECURSIVE BinTree(_, _, _, _)
BinTree(terms, ops, a, b) ==
  IF b < a THEN terms[a]
  ELSE LET m == Weakest(ops, a + 1, b, a)
           l == BinTree(terms, ops, a, m - 1)
           r == BinTree(terms, ops, m + 1, b)
       IN NSpan(BinE(l, ops[m], r), IF l.sp = <<>> THEN <<>> ELSE <<l.sp[1], r.sp[2]>>)

-----------------------------------------------------------------------------
RECURSIVE Expr(_, _, _), ExprLoop(_, _, _, _, _), Term(_, _, _), TermBase(_, _, _),
          TravOps(_, _, _, _), BinOps(_, _, _, _, _), ArrItems(_, _, _, _),
          ObjItems(_, _, _), FnNs(_, _, _, _), FnArgs(_, _, _),
          Elements(_, _, _, _, _), LabelLoop(_, _, _), BodyLoop(_, _, _, _, _)

(* ------------------------------------------------------------- templates *)
Strip(c, p) == IF At(c, p) = TILDE THEN Ok(p + 1, TRUE) ELSE Ok(p, FALSE)
(* what follows the inner part of a control sequence: opt('~') '}' *)
CtlEnd(c, p) == LET s == Strip(c, p) IN
  Then(CutChr(c, s.p, RBRC), LAMBDA e : Ok(e.p, s.v))

Interp(c, p) ==
  Then(Lit(c, p, <<DOLLAR, LBRC>>), LAMBDA a :
  LET s == Strip(c, a.p)
      w == Ws(c, s.p)
  IN Then(Expr(c, w, TRUE), LAMBDA e :
     LET f == Ws(c, e.p) IN
     Then(CtlEnd(c, f), LAMBDA z :
       Ok(z.p, ItpEl(<<s.v, z.v>>, Deco(c, s.p, w, e.p, f, e.v))))))

(* opening of a directive up to and including its keyword *)
DirIntro(c, p, kw, cut) ==
  Then(Lit(c, p, <<PCT, LBRC>>), LAMBDA a :
  LET s == Strip(c, a.p)
      w == Ws(c, s.p)
      r == Lit(c, w, kw)
  IN Then(IF cut THEN CutErr(r) ELSE r, LAMBDA b :
     Ok(b.p, [st |-> s.v, pre |-> DTxt(c, s.p, w)])))

(* a directive without arguments: else, endif, endfor *)
DirPlain(c, p, kw, cut) ==
  Then(DirIntro(c, p, kw, cut), LAMBDA a :
  LET w == Ws(c, a.p) IN
  Then(CtlEnd(c, w), LAMBDA z :
    Ok(z.p, [st |-> <<a.v.st, z.v>>, pre |-> a.v.pre, tr |-> DTxt(c, a.p, w)])))

(* lk: "q" quoted literals, "r" raw literals (delim ends a heredoc).        *)
(* The bodies of directives inside of heredocs do not know the delimiter.   *)
BodyTpl(c, p, lk) == Elements(c, p, lk, <<>>, <<>>)

IfDir(c, p, lk) ==
  Then(DirIntro(c, p, T_if, FALSE), LAMBDA a :
  LET w == Ws(c, a.p) IN
  Then(Expr(c, w, FALSE), LAMBDA e :
  LET f == Ws(c, e.p) IN
  Then(CtlEnd(c, f), LAMBDA z :
  Then(BodyTpl(c, z.p, lk), LAMBDA it :
  LET el == Then(DirPlain(c, it.p, T_else, FALSE), LAMBDA x :
            Then(BodyTpl(c, x.p, lk), LAMBDA et :
              Ok(et.p, [has |-> TRUE, d |-> x.v, els |-> et.v, tsp |-> Span(c, x.p, et.p)])))
      noel == [has |-> FALSE, d |-> [st |-> <<FALSE, FALSE>>, pre |-> <<>>, tr |-> <<>>],
               els |-> <<>>, tsp |-> NoSpan]
  IN Then(Opt(el, it.p, noel), LAMBDA oe :
     Then(DirPlain(c, oe.p, T_endif, TRUE), LAMBDA en :
       Ok(en.p, [k |-> "ifd", sp |-> NoSpan, ist |-> <<a.v.st, z.v>>, ipre |-> a.v.pre,
                 ic |-> Deco(c, a.p, w, e.p, f, e.v), it |-> it.v, isp |-> Span(c, z.p, it.p),
                 hase |-> oe.v.has, est |-> oe.v.d.st, epre |-> oe.v.d.pre, etr |-> oe.v.d.tr,
                 et |-> oe.v.els, esp |-> oe.v.tsp,
                 nst |-> en.v.st, npre |-> en.v.pre, ntr |-> en.v.tr])))))))

(* decorated(ws, cut_ident, ws) *)
WsIdent(c, p) ==
  LET w == Ws(c, p) IN
  Then(CutErr(StrIdent(c, w)), LAMBDA i :
  LET f == Ws(c, i.p) IN Ok(f, Deco(c, p, w, i.p, f, Id0(i.v))))

(* first [, second] in collection; shared by for directives and for exprs   *)
ForVars(c, p) ==
  Then(WsIdent(c, p), LAMBDA a :
  LET o == Then(Chr(c, a.p, COMMA), LAMBDA x : WsIdent(c, x.p)) IN
  Then(Opt(o, a.p, NoId), LAMBDA b :
  Then(CutErr(Lit(c, b.p, T_in)), LAMBDA i :
  LET w == Ws(c, i.p) IN
  Then(Expr(c, w, FALSE), LAMBDA e :
  LET f == Ws(c, e.p)
      two == b.v # NoId
  IN Ok(f, [hask |-> two, kv |-> IF two THEN a.v ELSE NoId,
            vv |-> IF two THEN b.v ELSE a.v,
            coll |-> Deco(c, i.p, w, e.p, f, e.v)])))))

ForDir(c, p, lk) ==
  Then(DirIntro(c, p, T_for, FALSE), LAMBDA a :
  Then(ForVars(c, a.p), LAMBDA b :
  Then(CtlEnd(c, b.p), LAMBDA z :
  Then(BodyTpl(c, z.p, lk), LAMBDA t :
  Then(DirPlain(c, t.p, T_endfor, TRUE), LAMBDA en :
    Ok(en.p, [k |-> "fod", sp |-> NoSpan, fst |-> <<a.v.st, z.v>>, fpre |-> a.v.pre,
              hask |-> b.v.hask, kv |-> b.v.kv, vv |-> b.v.vv, coll |-> b.v.coll,
              ft |-> t.v, fsp |-> Span(c, z.p, t.p),
              nst |-> en.v.st, npre |-> en.v.pre, ntr |-> en.v.tr]))))))

Directive(c, p, lk) ==
  LET r == IfDir(c, p, lk) IN IF r.t # "bt" THEN r ELSE ForDir(c, p, lk)

Literal(c, p, lk, delim) ==
  Then(IF lk = "q" THEN Quoted(c, p, <<>>, TRUE) ELSE RawLit(c, p, <<>>, TRUE, delim),
       LAMBDA r : Ok(r.p, LitEl(r.v)))

Elements(c, p, lk, delim, acc) ==
  LET l == Literal(c, p, lk, delim)
      i == IF l.t # "bt" THEN l ELSE Interp(c, p)
      r == IF i.t # "bt" THEN i ELSE Directive(c, p, lk)
  IN IF r.t = "ok" THEN Elements(c, r.p, lk, delim, Append(acc, NSpan(r.v, Span(c, p, r.p))))
     ELSE IF r.t = "bt" THEN Ok(p, acc)
     ELSE r

StrTpl(c, p) ==
  Then(Chr(c, p, QUOTE), LAMBDA a :
  Then(Elements(c, a.p, "q", <<>>, <<>>), LAMBDA b :
  Then(Chr(c, b.p, QUOTE), LAMBDA e : Ok(e.p, TplE(b.v)))))

(* the line ending before the delimiter belongs to the last literal; there  *)
(* is no template if the first line is the delimiter                        *)
HeredocTpl(c, p, delim) ==
  LET r == Then(Elements(c, p, "r", delim, <<>>), LAMBDA a :
           Then(LineEnding(c, a.p), LAMBDA e :
           LET n == Len(a.v)
               t == Txt(c, a.p, e.p)
           IN Ok(e.p, IF n > 0 /\ a.v[n].k = "lit"
                      THEN [a.v EXCEPT ![n].lv = @ \o t, ![n].sp = IF ~c.spans THEN <<>> ELSE <<@[1], c.off[e.p]>>]
                      ELSE Append(a.v, NSpan(LitEl(t), Span(c, a.p, e.p))))))
  IN IF DelimLine(c, p, delim) THEN Ok(p, <<>>) ELSE Opt(r, p, <<>>)

Heredoc(c, p) ==
  Then(Lit(c, p, <<LT, LT>>), LAMBDA a :
  LET flush == At(c, a.p) = MINUS
      q == IF flush THEN a.p + 1 ELSE a.p
  IN Then(CutErr(StrIdent(c, q)), LAMBDA d :
     Then(CutErr(LineEnding(c, d.p)), LAMBDA b :
     Then(HeredocTpl(c, b.p, d.v), LAMBDA t :
     LET s == SkipSpace(c, t.p)
         e == s + Len(d.v)
         x == At(c, e)
     IN IF ~IsPrefixAt(c.s, s, d.v) THEN Cut(s)
        ELSE IF x # -1 /\ IsIdCont(x) THEN Cut(e)
        ELSE LET ind == IF flush THEN Max2(HeredocIndent(t.v), 0) ELSE -1
             IN Ok(e, HdE(d.v, ind, HeredocDedent(t.v, ind), Span(c, b.p, t.p),
                          DTxt(c, t.p, s)))))))

(* ------------------------------------------------------------ expressions *)
Number(c, p) == \* v: end position of the number starting at p
  LET NumEnd == NumberEnd(c.s, p) IN
  IF NumEnd.t = "ok" THEN Ok(NumEnd.p, <<>>)
  ELSE IF NumEnd.t = "cut" THEN Cut(NumEnd.p) ELSE Bt(NumEnd.p)

NumTerm(c, p) == Then(Number(c, p), LAMBDA r : Ok(r.p, NumE(c, Txt(c, p, r.p))))
NegNum(c, p) == LET q == Sp(c, p + 1) IN
  Then(Number(c, q), LAMBDA r : Ok(r.p, [NumE(c, Txt(c, q, r.p)) EXCEPT
                                          !.repr = DTxt(c, p, r.p), !.val = NegLit(@)]))
Unary(c, p, nl) == LET q == Sp(c, p + 1) IN
  Then(Term(c, q, nl), LAMBDA e :
    Ok(e.p, UnE(IF c.s[p] = MINUS THEN "-" ELSE "!", Span(c, p, p + 1),
                PreDeco(c, p + 1, q, e.p, e.v))))

Paren(c, p) ==
  LET w == Ws(c, p + 1) IN
  Then(Expr(c, w, TRUE), LAMBDA e :
  LET f == Ws(c, e.p) IN
  Then(CutChr(c, f, RPAR), LAMBDA z : Ok(z.p, ParE(Deco(c, p + 1, w, e.p, f, e.v)))))

Keyword(id) == IF id = T_null THEN NullE ELSE IF id = T_true THEN BoolE(TRUE)
               ELSE IF id = T_false THEN BoolE(FALSE) ELSE VarE(id)

IdentLike(c, p, nl) ==
  LET i == StrIdent(c, p)
      q == WsOrSp(c, i.p, nl)
      isNs == Has(c, q, 2) /\ c.s[q] = COLON /\ c.s[q + 1] = COLON
      isFn == Has(c, q, 2) /\ c.s[q] = LPAR
      id == SufDeco(c, p, i.p, q, Id0(i.v))
  IN IF isNs THEN
       Then(FnNs(c, q, nl, <<id>>), LAMBDA ns :
       LET n == Len(ns.v) IN
       Then(FnArgs(c, ns.p, nl), LAMBDA a :
         Ok(a.p, FnE(SubSeq(ns.v, 1, n - 1), ns.v[n], a.v.args, a.v.exp, a.v.tc, a.v.tr))))
     ELSE IF isFn THEN
       Then(FnArgs(c, q, nl), LAMBDA a :
         Ok(a.p, FnE(<<>>, id, a.v.args, a.v.exp, a.v.tc, a.v.tr)))
     ELSE Ok(i.p, Keyword(i.v))

FnNs(c, p, nl, acc) ==
  LET l == Lit(c, p, <<COLON, COLON>>) IN
  IF l.t = "bt" THEN (IF Len(acc) = 1 THEN l ELSE Ok(p, acc))
  ELSE LET w == WsOrSp(c, l.p, nl) IN
       Then(CutErr(StrIdent(c, w)), LAMBDA i :
       LET f == WsOrSp(c, i.p, nl)
       IN FnNs(c, f, nl, Append(acc, Deco(c, l.p, w, i.p, f, Id0(i.v)))))

(* decorated(ws, expr, ws) unless the next char is in stop; newlines allowed *)
Item(c, p, stop) ==
  LET w == Ws(c, p) IN
  IF At(c, w) \in stop THEN Bt(w)
  ELSE Then(Expr(c, w, TRUE), LAMBDA e :
       LET f == Ws(c, e.p) IN Ok(f, Deco(c, p, w, e.p, f, e.v)))

(* separated(_, item, ','): a separator not followed by an item is not consumed *)
ArrItems(c, p, stop, acc) ==
  LET s == Chr(c, p, COMMA) IN
  IF s.t # "ok" THEN Ok(p, acc)
  ELSE LET r == Item(c, s.p, stop) IN
       IF r.t = "ok" THEN ArrItems(c, r.p, stop, Append(acc, r.v))
       ELSE IF r.t = "bt" THEN Ok(p, acc) ELSE r
Items(c, p, stop) ==
  LET r == Item(c, p, stop) IN
  IF r.t = "ok" THEN ArrItems(c, r.p, stop, <<r.v>>) ELSE r

FnArgs(c, p, nl) ==
  Then(CutChr(c, p, LPAR), LAMBDA a :
  Then(Opt(Items(c, a.p, {-1, COMMA, DOT, RPAR}), a.p, <<>>), LAMBDA b :
  LET has == b.v # <<>>
      ell == has /\ At(c, b.p) = DOT
      tc == has /\ At(c, b.p) = COMMA
      t == IF ell THEN CutErr(Lit(c, b.p + 1, <<DOT, DOT>>))
           ELSE IF tc THEN Ok(b.p + 1, <<>>) ELSE Ok(b.p, <<>>)
  IN Then(t, LAMBDA d :
     LET w == Ws(c, d.p) IN
     Then(CutChr(c, w, RPAR), LAMBDA z :
       Ok(z.p, [args |-> b.v, exp |-> ell, tc |-> tc /\ ~c.bare, tr |-> DTxt(c, d.p, w)])))))

(* `for` must be followed by space, a comment or a newline *)
IsFor(c, p) ==
  LET w == Ws(c, p) IN
  /\ IsPrefixAt(c.s, w, T_for)
  /\ At(c, w + 3) \in {SPC, TAB, HASH, SLASH, NL}

ForIntro(c, p) ==
  LET w == Ws(c, p) IN
  Then(Lit(c, w, T_for), LAMBDA a :
  Then(ForVars(c, a.p), LAMBDA b :
  Then(CutChr(c, b.p, COLON), LAMBDA z :
    Ok(z.p, [v |-> b.v, pre |-> DTxt(c, p, w), isp |-> Span(c, w, z.p)]))))

ForCond(c, p, nl) ==
  LET w == Ws(c, p) IN
  Then(Lit(c, w, T_if), LAMBDA a :
  LET x == Ws(c, a.p) IN
  Then(Expr(c, x, nl), LAMBDA e :
  LET f == Ws(c, e.p) IN
    Ok(f, [has |-> TRUE, e |-> Deco(c, a.p, x, e.p, f, e.v), pre |-> DTxt(c, p, w),
           csp |-> Span(c, w, f)])))
NoForCond == [has |-> FALSE, e |-> NullE, pre |-> <<>>, csp |-> NoSpan]

WsExpr(c, p, nl) ==
  LET w == Ws(c, p) IN
  Then(Expr(c, w, nl), LAMBDA e :
  LET f == Ws(c, e.p) IN Ok(f, Deco(c, p, w, e.p, f, e.v)))

ForList(c, p) ==
  Then(ForIntro(c, p), LAMBDA i :
  Then(WsExpr(c, i.p, TRUE), LAMBDA v :
  Then(Opt(ForCond(c, v.p, TRUE), v.p, NoForCond), LAMBDA d :
    Ok(d.p, ForE(i.v.isp, i.v.pre, i.v.v.hask, i.v.v.kv, i.v.v.vv, i.v.v.coll, FALSE, NullE,
                 v.v, FALSE, d.v.has, d.v.e, d.v.csp, d.v.pre, <<>>)))))

ForObj(c, p) ==
  Then(ForIntro(c, p), LAMBDA i :
  Then(WsExpr(c, i.p, FALSE), LAMBDA k :
  Then(CutErr(Lit(c, k.p, <<EQ, GT>>)), LAMBDA a :
  Then(WsExpr(c, a.p, FALSE), LAMBDA v :
  LET grp == IsPrefixAt(c.s, v.p, <<DOT, DOT, DOT>>)
      g == IF grp THEN v.p + 3 ELSE v.p
      w == IF grp THEN Ws(c, g) ELSE g
  IN Then(Opt(ForCond(c, w, TRUE), w, NoForCond), LAMBDA d :
       Ok(d.p, ForE(i.v.isp, i.v.pre, i.v.v.hask, i.v.v.kv, i.v.v.vv, i.v.v.coll, TRUE, k.v,
                    v.v, grp, d.v.has, d.v.e, d.v.csp,
                    IF grp /\ d.v.has THEN DTxt(c, g, w) ELSE d.v.pre,
                    IF grp /\ ~d.v.has /\ ~c.hide THEN DTxt(c, g, w) ELSE <<>>)))))))

Array(c, p) ==
  LET r == IF IsFor(c, p + 1) THEN ForList(c, p + 1)
           ELSE Then(Opt(Items(c, p + 1, {RBRK}), p + 1, <<>>), LAMBDA a :
                LET tc == At(c, a.p) = COMMA
                    q == IF tc THEN a.p + 1 ELSE a.p
                    w == Ws(c, q)
                IN Ok(w, ArrE(a.v, tc /\ ~c.bare, DTxt(c, q, w))))
  IN Then(r, LAMBDA x : Then(CutChr(c, x.p, RBRK), LAMBDA z : Ok(z.p, x.v)))

Object(c, p) ==
  LET r == IF IsFor(c, p + 1) THEN ForObj(c, p + 1) ELSE ObjItems(c, p + 1, <<>>)
  IN Then(r, LAMBDA x : Then(CutChr(c, x.p, RBRC), LAMBDA z : Ok(z.p, x.v)))

(* What remains of a tree when everything without meaning is left out. *)
RECURSIVE Bare(_), BareEls(_), BareS(_), BareBody(_)
BareSeq(es) == [i \in 1..Len(es) |-> Bare(es[i])]
BareId(i) == [i EXCEPT !.sp = NoSpan, !.pre = <<>>, !.suf = <<>>]
BareIds(is) == [i \in 1..Len(is) |-> BareId(is[i])]
BareEnt(n) == [n EXCEPT !.key = IF n.key.k = "id" THEN BareId(n.key) ELSE Bare(n.key),
                        !.asg = "=", !.val = Bare(n.val), !.term = "none"]
BareTop(t) ==
  LET o == [t EXCEPT !.opre = <<>>, !.osp = NoSpan] IN
  IF o.tk = "idx" THEN [o EXCEPT !.ix = Bare(o.ix)] ELSE BareId(o)
BareEl(e) ==
  LET b == [e EXCEPT !.sp = NoSpan] IN
  CASE e.k = "lit" -> b
    [] e.k = "itp" -> [b EXCEPT !.e = Bare(e.e)]
    [] e.k = "ifd" -> [b EXCEPT !.ipre = <<>>, !.ic = Bare(e.ic), !.it = BareEls(e.it), !.isp = NoSpan,
                                !.epre = <<>>, !.etr = <<>>, !.et = BareEls(e.et), !.esp = NoSpan,
                                !.npre = <<>>, !.ntr = <<>>]
    [] e.k = "fod" -> [b EXCEPT !.fpre = <<>>, !.kv = BareId(e.kv), !.vv = BareId(e.vv),
                                !.coll = Bare(e.coll), !.ft = BareEls(e.ft), !.fsp = NoSpan,
                                !.npre = <<>>, !.ntr = <<>>]
BareEls(es) == [i \in 1..Len(es) |-> BareEl(es[i])]
Bare(e) ==
  LET b == BareId(e) IN
  CASE e.k \in {"null", "bool", "str", "var", "id"} -> b
    [] e.k = "num" -> [b EXCEPT !.repr = <<>>]
    [] e.k = "par" -> [b EXCEPT !.e = Bare(e.e)]
    [] e.k = "un" -> [b EXCEPT !.e = Bare(e.e), !.osp = NoSpan]
    [] e.k = "bin" -> [b EXCEPT !.l = Bare(e.l), !.op = BareId(e.op), !.r = Bare(e.r)]
    [] e.k = "cond" -> [b EXCEPT !.ce = Bare(e.ce), !.te = Bare(e.te), !.fe = Bare(e.fe)]
    [] e.k = "arr" -> [b EXCEPT !.items = BareSeq(e.items), !.tc = FALSE, !.tr = <<>>]
    [] e.k = "obj" -> [b EXCEPT !.ents = [i \in 1..Len(e.ents) |-> BareEnt(e.ents[i])], !.tr = <<>>]
    [] e.k = "fn" -> [b EXCEPT !.ns = BareIds(e.ns), !.name = BareId(e.name), !.args = BareSeq(e.args),
                               !.tc = FALSE, !.tr = <<>>]
    [] e.k = "trv" -> [b EXCEPT !.e = Bare(e.e),
                                !.tops = [i \in 1..Len(e.tops) |-> BareTop(e.tops[i])]]
    [] e.k = "tpl" -> [b EXCEPT !.els = BareEls(e.els)]
    [] e.k = "hd" -> [b EXCEPT !.els = BareEls(e.els), !.tsp = NoSpan, !.tr = <<>>]
    [] e.k = "for" -> [b EXCEPT !.isp = NoSpan, !.ipre = <<>>, !.kv = BareId(e.kv), !.vv = BareId(e.vv),
                                !.coll = Bare(e.coll), !.ke = Bare(e.ke), !.ve = Bare(e.ve),
                                !.cond = Bare(e.cond), !.csp = NoSpan, !.cpre = <<>>, !.tr = <<>>]
BareS(s) ==
  IF s.k = "attr" THEN [BareId(s) EXCEPT !.key = BareId(s.key), !.val = Bare(s.val)]
  ELSE [BareId(s) EXCEPT !.bid = BareId(s.bid), !.labels = BareIds(s.labels), !.body = BareBody(s.body)]
BareBody(d) == [BareId(d) EXCEPT !.ss = [i \in 1..Len(d.ss) |-> BareS(d.ss[i])], !.one = FALSE, !.omit = FALSE]
BareOf(n) == CASE n.k = "body" -> BareBody(n)
               [] n.k = "template" -> [n EXCEPT !.els = BareEls(n.els)]
               [] OTHER -> Bare(n)

(* Two object keys are the same key iff they are equal up to decor. *)
RECURSIVE EntPos(_, _, _)
EntPos(ents, key, i) ==
  IF i > Len(ents) THEN 0
  ELSE IF ents[i].key.k = key.k /\ Bare(ents[i].key) = Bare(key) THEN i ELSE EntPos(ents, key, i + 1)
(* the key which is there remains, and its place *)
InsertEnt(ents, ent) ==
  LET i == EntPos(ents, ent.key, 1) IN
  IF i = 0 THEN Append(ents, ent) ELSE [ents EXCEPT ![i] = [ent EXCEPT !.key = ents[i].key]]

PutEnt(c, ents, ent) == IF c.dups THEN Append(ents, ent) ELSE InsertEnt(ents, ent)

Ent(key, asg, val, term) == [key |-> key, asg |-> asg, val |-> val, term |-> term]

CommentFailPos(c, f) == \* where a line comment that is none stops
  LET cr(p) == CHOOSE q \in p..c.n : c.s[q] = CR /\ \A i \in p..(q - 1) : c.s[i] \notin {CR, NL} IN
  IF c.s[f] = HASH THEN cr(f + 1) ELSE IF At(c, f + 1) = SLASH THEN cr(f + 2) ELSE f

ObjItems(c, p, acc) ==
  LET w == Ws(c, p) IN
  IF w > c.n THEN Bt(w)
  ELSE IF c.s[w] = RBRC THEN Ok(w, ObjE(acc, DTxt(c, p, w)))
  ELSE
  Then(Expr(c, w, FALSE), LAMBDA k :
  LET ke == Sp(c, k.p)
      key0 == IF k.v.k = "var" THEN Id0(k.v.id) ELSE k.v
      key == Deco(c, p, w, k.p, ke, key0)
      a == At(c, ke)
  IN IF a = -1 THEN Bt(ke) ELSE IF a # EQ /\ a # COLON THEN Cut(ke + 1)
  ELSE
  LET x == Sp(c, ke + 1) IN
  Then(Expr(c, x, FALSE), LAMBDA v :
  LET f == Sp(c, v.p)
      val == Deco(c, ke + 1, x, v.p, f, v.v)
      t == At(c, f)
      asg == IF a = EQ THEN "=" ELSE ":"
      go(q, vv, term) == ObjItems(c, q, PutEnt(c, acc, Ent(key, IF c.bare THEN "=" ELSE asg, vv, IF c.bare THEN "none" ELSE term)))
  IN IF t = -1 THEN Bt(f)
     ELSE IF t = RBRC THEN Ok(f, ObjE(PutEnt(c, acc, Ent(key, IF c.bare THEN "=" ELSE asg, val, "none")), <<>>))
     ELSE IF t = CR THEN (IF At(c, f + 1) = NL THEN go(f + 2, val, "nl") ELSE Bt(f))
     ELSE IF t = NL THEN go(f + 1, val, "nl")
     ELSE IF t = COMMA THEN go(f + 1, val, "comma")
     ELSE IF t = HASH \/ t = SLASH THEN
       LET l == LineComment(c, f) IN
       IF l = 0 THEN Bt(CommentFailPos(c, f))
       ELSE LET le == LineEnding(c, l) IN
            IF le.t # "ok" THEN le
            ELSE go(le.p, NSuf(val, DTxt(c, v.p, l)), "nl")
     ELSE Cut(f)))

TermBase(c, p, nl) ==
  LET x == At(c, p) IN
  CASE x = -1 -> Bt(p)
    [] x = QUOTE -> LET r == Str(c, p) IN
                    IF r.t = "ok" THEN Ok(r.p, StrE(r.v))
                    ELSE IF r.t = "cut" THEN r ELSE StrTpl(c, p)
    [] x = LBRK -> Array(c, p)
    [] x = LBRC -> Object(c, p)
    [] IsDigit(x) -> NumTerm(c, p)
    [] x = LT -> Heredoc(c, p)
    [] x = MINUS -> LET r == NegNum(c, p) IN IF r.t # "bt" THEN r ELSE Unary(c, p, nl)
    [] x = BANG -> Unary(c, p, nl)
    [] x = LPAR -> Paren(c, p)
    [] IsIdStart(x) -> IdentLike(c, p, nl)
    [] OTHER -> Cut(p)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(c, p) == IF p <= c.n /\ IsDigit(c.s[p]) THEN DigitsEnd(c, p + 1) ELSE p

TravOp(c, p) == \* p is at '.' or '['
  LET x == At(c, p) IN
  CASE x = DOT ->
         LET w == Ws(c, p + 1)
             y == At(c, w)
         IN CASE y = -1 -> Bt(w)
              [] y = STAR -> Ok(w + 1, PreDeco(c, p + 1, w, w + 1, TopId("asp", <<>>)))
              [] IsDigit(y) ->
                   LET q == IF y = 48 THEN w + 1 ELSE DigitsEnd(c, w) IN
                   IF ~FitsU64(Txt(c, w, q)) THEN Bt(w)
                   ELSE Ok(q, PreDeco(c, p + 1, w, q, TopId("leg", Txt(c, w, q))))
              [] IsIdStart(y) ->
                   LET i == StrIdent(c, w) IN Ok(i.p, PreDeco(c, p + 1, w, i.p, TopId("attr", i.v)))
              [] OTHER -> Cut(w)
    [] x = LBRK ->
         LET w == Ws(c, p + 1)
             y == At(c, w)
         IN IF y = -1 THEN Bt(w)
            ELSE IF y = STAR THEN
              LET f == Ws(c, w + 1) IN
              Then(CutChr(c, f, RBRK), LAMBDA z :
                Ok(z.p, Deco(c, p + 1, w, w + 1, f, TopId("fsp", <<>>))))
            ELSE Then(Expr(c, w, TRUE), LAMBDA e :
                 LET f == Ws(c, e.p) IN
                 Then(CutChr(c, f, RBRK), LAMBDA z :
                   Ok(z.p, TopIx(Deco(c, p + 1, w, e.p, f, e.v)))))
    [] OTHER -> IF x = -1 THEN Bt(p) ELSE Bt(p + 1)

TravOps(c, p, nl, acc) ==
  LET w == WsOrSp(c, p, nl)
      r == IF At(c, w) = DOT /\ At(c, w + 1) = DOT THEN Bt(w) ELSE TravOp(c, w)
  IN IF r.t = "ok" THEN
       TravOps(c, r.p, nl, Append(acc, [r.v EXCEPT !.opre = DTxt(c, p, w), !.osp = Span(c, w, r.p)]))
     ELSE IF r.t = "bt" /\ acc # <<>> THEN Ok(p, acc)
     ELSE r

Term(c, p, nl) ==
  Then(TermBase(c, p, nl), LAMBDA b :
  LET e == NSpan(b.v, Span(c, p, b.p))
      q == WsOrSp(c, b.p, nl)
      isTrav == /\ Has(c, q, 2)
                /\ c.s[q] = LBRK \/ (c.s[q] = DOT /\ c.s[q + 1] # DOT)
  IN IF ~isTrav THEN Ok(b.p, e)
     ELSE Then(TravOps(c, q, nl, <<>>), LAMBDA t :
          Ok(t.p, NSpan(TrvE(NSuf(e, DTxt(c, b.p, q)), t.v), Span(c, p, t.p)))))

BinOp(c, p) == \* v: operator
  LET x == At(c, p)
      y == At(c, p + 1)
      two(ch, o) == IF y = ch THEN Ok(p + 2, o) ELSE Bt(p + 1)
  IN CASE x = -1 -> Bt(p)
       [] x = EQ -> two(EQ, "==")
       [] x = BANG -> two(EQ, "!=")
       [] x = LT -> IF y = EQ THEN Ok(p + 2, "<=") ELSE Ok(p + 1, "<")
       [] x = GT -> IF y = EQ THEN Ok(p + 2, ">=") ELSE Ok(p + 1, ">")
       [] x = PLUS -> Ok(p + 1, "+")
       [] x = MINUS -> Ok(p + 1, "-")
       [] x = STAR -> Ok(p + 1, "*")
       [] x = SLASH -> IF y = SLASH \/ y = STAR THEN Bt(p + 1) ELSE Ok(p + 1, "/")
       [] x = PCT -> Ok(p + 1, "%")
       [] x = AMP -> two(AMP, "&&")
       [] x = PIPE -> two(PIPE, "||")
       [] OTHER -> Bt(p + 1)

(* v: [ops, terms] *)
BinOps(c, p, nl, ops, terms) ==
  LET w == WsOrSp(c, p, nl)
      r == Then(BinOp(c, w), LAMBDA o :
           LET f == WsOrSp(c, o.p, nl) IN
           Then(Term(c, f, nl), LAMBDA e :
             Ok(e.p, [o |-> Deco(c, p, w, o.p, f, OpN(o.v)), e |-> e.v])))
  IN IF r.t = "ok" THEN BinOps(c, r.p, nl, Append(ops, r.v.o), Append(terms, r.v.e))
     ELSE IF r.t = "bt" /\ ops # <<>> THEN Ok(p, [ops |-> ops, terms |-> terms])
     ELSE r

StartsBinOp(c, q) ==
  LET x == c.s[q]  y == c.s[q + 1] IN
  /\ ~(x = SLASH /\ (y = SLASH \/ y = STAR))
  /\ \/ x = EQ /\ y = EQ
     \/ x \in {BANG, LT, GT, PLUS, MINUS, STAR, SLASH, PCT, AMP, PIPE}

(* e is the expression parsed so far, which covers [start, p) *)
ExprLoop(c, start, p, nl, e) ==
  LET q == WsOrSp(c, p, nl) IN
  IF ~Has(c, q, 2) THEN Ok(p, e)
  ELSE IF c.s[q] = QUEST THEN
    LET a == WsOrSp(c, q + 1, nl) IN
    Then(Expr(c, a, nl), LAMBDA te :
    LET b == WsOrSp(c, te.p, nl) IN
    Then(CutChr(c, b, COLON), LAMBDA z :
    LET d == WsOrSp(c, z.p, nl) IN
    Then(Expr(c, d, nl), LAMBDA fe :
      Ok(fe.p, NSpan(CondE(NSuf(e, DTxt(c, p, q)), Deco(c, q + 1, a, te.p, b, te.v),
                           PreDeco(c, z.p, d, fe.p, fe.v)), Span(c, start, fe.p))))))
  ELSE IF StartsBinOp(c, q) THEN
    Then(BinOps(c, p, nl, <<>>, <<e>>), LAMBDA r :
      ExprLoop(c, start, r.p, nl,
        NSpan(BinTree(r.v.terms, r.v.ops, 1, Len(r.v.ops)), Span(c, start, r.p))))
  ELSE Ok(p, e)

Expr(c, p, nl) == Then(Term(c, p, nl), LAMBDA t : ExprLoop(c, p, t.p, nl, t.v))

(* -------------------------------------------------------------- structure *)
AttrS(key, val) == [k |-> "attr", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, key |-> key, val |-> val]
BlockS(id, labels, body) == [k |-> "block", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                             bid |-> id, labels |-> labels, body |-> body]
BodyN(ss, one, omit) == [k |-> "body", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                         ss |-> ss, one |-> one, omit |-> omit]
LabelS(v) == [k |-> "lstr", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, lsv |-> v]
LabelI(v) == [k |-> "lid", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> v]

AttrExpr(c, p) ==
  Then(CutChr(c, p, EQ), LAMBDA a :
  LET w == Sp(c, a.p) IN
  Then(Expr(c, w, FALSE), LAMBDA e : Ok(e.p, PreDeco(c, a.p, w, e.p, e.v))))

LabelLoop(c, p, acc) ==
  LET s == Then(Str(c, p), LAMBDA r : Ok(r.p, LabelS(r.v)))
      l == IF s.t # "bt" THEN s ELSE Then(StrIdent(c, p), LAMBDA r : Ok(r.p, LabelI(r.v)))
  IN IF l.t = "ok"
     THEN LET f == Sp(c, l.p) IN LabelLoop(c, f, Append(acc, SufDeco(c, p, l.p, f, l.v)))
     ELSE IF l.t = "bt" THEN Ok(p, acc) ELSE l

RECURSIVE Body(_, _)
BlockBody(c, p) ==
  Then(CutChr(c, p, LBRC), LAMBDA a :
  LET w == OptLineComment(c, Sp(c, a.p))
      multi == Then(LineEnding(c, w), LAMBDA le :
               Then(Body(c, le.p), LAMBDA b : Ok(b.p, PreDeco(c, a.p, w, b.p, b.v))))
      x == Sp(c, a.p)
      attr == Then(StrIdent(c, x), LAMBDA i :
              LET y == Sp(c, i.p) IN
              Then(AttrExpr(c, y), LAMBDA e :
              LET f == Sp(c, e.p) IN
                Ok(f, Deco(c, a.p, x, e.p, f, AttrS(SufDeco(c, x, i.p, y, Id0(i.v)), e.v)))))
      one == Then(Opt(Then(attr, LAMBDA s : Ok(s.p, <<s.v>>)), a.p, <<>>), LAMBDA o :
             LET z == Sp(c, o.p) IN Ok(z, NSuf(BodyN(o.v, ~c.bare, FALSE), DTxt(c, o.p, z))))
      r == IF multi.t # "bt" THEN multi ELSE one
  IN Then(r, LAMBDA b : Then(CutChr(c, b.p, RBRC), LAMBDA z : Ok(z.p, b.v))))

StructureP(c, p, keys) ==
  LET i == StrIdent(c, p) IN
  IF i.t # "ok" THEN i
  ELSE
  LET q == Sp(c, i.p)
      x == At(c, q)
      key == SufDeco(c, p, i.p, q, Id0(i.v))
  IN IF x = -1 THEN Bt(q)
     ELSE IF x = EQ THEN
       IF i.v \in keys THEN Cut(p)
       ELSE Then(AttrExpr(c, q), LAMBDA e : Ok(e.p, NSpan(AttrS(key, e.v), Span(c, p, e.p))))
     ELSE IF x = LBRC THEN
       Then(BlockBody(c, q), LAMBDA b : Ok(b.p, NSpan(BlockS(key, <<>>, b.v), Span(c, p, b.p))))
     ELSE IF x = QUOTE \/ IsIdStart(x) THEN
       Then(LabelLoop(c, q, <<>>), LAMBDA l :
       Then(BlockBody(c, l.p), LAMBDA b :
         Ok(b.p, NSpan(BlockS(key, l.v, b.v), Span(c, p, b.p)))))
     ELSE Cut(q)

(* keys: attribute keys seen so far *)
BodyLoop(c, p, keys, acc, eof) ==
  LET w == Ws(c, p)
      s == StructureP(c, w, keys)
  IN IF s.t = "bt" THEN Ok(p, [ss |-> acc, omit |-> eof])
     ELSE IF s.t = "cut" THEN s
     ELSE LET f == OptLineComment(c, Sp(c, s.p))
              st == [s.v EXCEPT !.pre = DTxt(c, p, w), !.suf = DTxt(c, s.p, f)]
              le == LineEnding(c, f)
              ks == IF s.v.k = "attr" THEN keys \cup {s.v.key.id} ELSE keys
          IN IF le.t = "ok" THEN BodyLoop(c, le.p, ks, Append(acc, st), eof)
             ELSE IF f > c.n THEN BodyLoop(c, f, ks, Append(acc, st), TRUE)
             ELSE Cut(f)

Body(c, p) ==
  Then(BodyLoop(c, p, {}, <<>>, FALSE), LAMBDA b :
  LET w == Ws(c, b.p) IN
    Ok(w, [BodyN(b.v.ss, FALSE, b.v.omit /\ ~c.bare) EXCEPT !.sp = Span(c, p, b.p), !.suf = DTxt(c, b.p, w)]))

(* Top-level entry points: the whole text has to be consumed. *)
Complete(c, r) == IF r.t = "ok" /\ r.p <= c.n THEN Bt(r.p) ELSE r
ParseIn(c, mode) ==
  Complete(c, CASE mode = "body" -> Body(c, 1)
                [] mode = "expr" -> Expr(c, 1, FALSE)
                [] mode = "tpl" -> Then(Elements(c, 1, "r", <<>>, <<>>), LAMBDA r :
                                     Ok(r.p, [k |-> "template", els |-> r.v])))
Parse(mode, s, bare, hide) == ParseIn(Ctx(s, bare, hide), mode)
(* with decor, but without spans *)
ParseNoSpans(mode, s, hide) == ParseIn([Ctx(s, FALSE, hide) EXCEPT !.spans = FALSE], mode)
(* Does an object of the text define a key twice?  (Only the last one stays.) *)
HasDuplicateKeys(mode, s) ==
  LET c == [Ctx(s, TRUE, TRUE) EXCEPT !.dups = TRUE]
      r == CASE mode = "body" -> Body(c, 1)
             [] mode = "expr" -> Expr(c, 1, FALSE)
             [] mode = "tpl" -> Elements(c, 1, "r", <<>>, <<>>)
      q == CASE mode = "body" -> Body(Ctx(s, TRUE, TRUE), 1)
             [] mode = "expr" -> Expr(Ctx(s, TRUE, TRUE), 1, FALSE)
             [] mode = "tpl" -> Elements(Ctx(s, TRUE, TRUE), 1, "r", <<>>, <<>>)
  IN r # q
=============================================================================
