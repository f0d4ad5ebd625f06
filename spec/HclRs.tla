-------------------------------- MODULE HclRs --------------------------------
(***************************************************************************)
(* The trees of hcl-rs: abstract syntax without decor, in which template    *)
(* expressions are texts.  R projects a parsed tree (with decor) on it,     *)
(* Fresh makes a syntax tree of it again, all of whose decor is unset.      *)
(***************************************************************************)
EXTENDS HclParser, HclEncode

RTpl(txt) == [k |-> "tpl", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, txt |-> txt]
RHd(delim, flush, txt) == [k |-> "hd", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>,
                           delim |-> delim, flush |-> flush, txt |-> txt]

RECURSIVE R(_), REls(_), RS(_), RBody(_)
RSeq(es) == [i \in 1..Len(es) |-> R(es[i])]
REnt(n) == [n EXCEPT !.key = IF n.key.k = "id" THEN BareId(n.key) ELSE R(n.key),
                     !.asg = "=", !.val = R(n.val), !.term = "none"]
RTop(t) ==
  LET o == [t EXCEPT !.opre = <<>>, !.osp = NoSpan] IN
  IF o.tk = "idx" THEN [o EXCEPT !.ix = R(o.ix)] ELSE BareId(o)
REl(e) ==
  LET b == [e EXCEPT !.sp = NoSpan] IN
  CASE e.k = "lit" -> b
    [] e.k = "itp" -> [b EXCEPT !.e = R(e.e)]
    [] e.k = "ifd" -> [b EXCEPT !.ipre = <<>>, !.ic = R(e.ic), !.it = REls(e.it), !.isp = NoSpan,
                                !.epre = <<>>, !.etr = <<>>, !.et = REls(e.et), !.esp = NoSpan,
                                !.npre = <<>>, !.ntr = <<>>]
    [] e.k = "fod" -> [b EXCEPT !.fpre = <<>>, !.kv = BareId(e.kv), !.vv = BareId(e.vv),
                                !.coll = R(e.coll), !.ft = REls(e.ft), !.fsp = NoSpan,
                                !.npre = <<>>, !.ntr = <<>>]
REls(es) == [i \in 1..Len(es) |-> REl(es[i])]
R(e) ==
  LET b == BareId(e) IN
  CASE e.k \in {"null", "bool", "str", "var", "id"} -> b
    [] e.k = "num" -> [b EXCEPT !.repr = <<>>]
    [] e.k = "par" -> [b EXCEPT !.e = R(e.e)]
    [] e.k = "un" -> [b EXCEPT !.e = R(e.e), !.osp = NoSpan]
    [] e.k = "bin" -> [b EXCEPT !.l = R(e.l), !.op = BareId(e.op), !.r = R(e.r)]
    [] e.k = "cond" -> [b EXCEPT !.ce = R(e.ce), !.te = R(e.te), !.fe = R(e.fe)]
    [] e.k = "arr" -> [b EXCEPT !.items = RSeq(e.items), !.tc = FALSE, !.tr = <<>>]
    [] e.k = "obj" -> [b EXCEPT !.ents = [i \in 1..Len(e.ents) |-> REnt(e.ents[i])], !.tr = <<>>]
    [] e.k = "fn" -> [b EXCEPT !.ns = BareIds(e.ns), !.name = BareId(e.name), !.args = RSeq(e.args),
                               !.tc = FALSE, !.tr = <<>>]
    [] e.k = "trv" -> [b EXCEPT !.e = R(e.e), !.tops = [i \in 1..Len(e.tops) |-> RTop(e.tops[i])]]
    [] e.k = "tpl" -> RTpl(EncTemplate(e.els))
    [] e.k = "hd" -> RHd(e.delim, e.ind >= 0, EncTemplate(e.els))
    [] e.k = "for" -> [b EXCEPT !.isp = NoSpan, !.ipre = <<>>, !.kv = BareId(e.kv), !.vv = BareId(e.vv),
                                !.coll = R(e.coll), !.ke = R(e.ke), !.ve = R(e.ve),
                                !.cond = R(e.cond), !.csp = NoSpan, !.cpre = <<>>, !.tr = <<>>]
RS(s) ==
  IF s.k = "attr" THEN [BareId(s) EXCEPT !.key = BareId(s.key), !.val = R(s.val)]
  ELSE [BareId(s) EXCEPT !.bid = BareId(s.bid), !.labels = BareIds(s.labels), !.body = RBody(s.body)]
RBody(d) == [BareId(d) EXCEPT !.ss = [i \in 1..Len(d.ss) |-> RS(d.ss[i])], !.one = FALSE, !.omit = FALSE]
ROf(n) == CASE n.k = "body" -> RBody(n)
            [] n.k = "template" -> [n EXCEPT !.els = REls(n.els)]
            [] OTHER -> R(n)

(* what a text means to hcl-rs: [t: "ok"|..., v] *)
RParse(mode, s) ==
  LET r == ParseNoSpans(mode, s, FALSE) IN IF r.t = "ok" THEN [r EXCEPT !.v = ROf(@)] ELSE r

-----------------------------------------------------------------------------
(* Templates which do not parse become empty. *)
TplOf(txt) == LET r == ParseNoSpans("tpl", txt, TRUE) IN IF r.t = "ok" THEN r.v.els ELSE <<>>

RECURSIVE F(_), FEls(_), FS(_), FB(_)
FId0(i) == [i EXCEPT !.pre = NoDecor, !.suf = NoDecor]
FIds(is) == [i \in 1..Len(is) |-> FId0(is[i])]
FSeq(es) == [i \in 1..Len(es) |-> F(es[i])]
FEnt0(n) == [n EXCEPT !.key = IF n.key.k = "id" THEN FId0(n.key) ELSE F(n.key), !.val = F(n.val), !.term = "comma"]
FTop(t) == LET o == [t EXCEPT !.opre = NoDecor] IN
           IF o.tk = "idx" THEN [o EXCEPT !.ix = F(o.ix)] ELSE FId0(o)
FEl(e) ==
  CASE e.k = "lit" -> e
    [] e.k = "itp" -> [e EXCEPT !.e = F(e.e)]
    [] e.k = "ifd" -> [e EXCEPT !.ic = F(e.ic), !.it = FEls(e.it), !.et = FEls(e.et)]
    [] e.k = "fod" -> [e EXCEPT !.kv = IF e.hask THEN FId0(@) ELSE @, !.vv = FId0(@), !.coll = F(@), !.ft = FEls(@)]
FEls(es) == [i \in 1..Len(es) |-> FEl(es[i])]
F(e) ==
  LET b == IF e.k \in {"tpl", "hd"} THEN e ELSE FId0(e) IN
  CASE e.k \in {"null", "bool", "str", "var", "id"} -> b
    [] e.k = "num" -> [b EXCEPT !.repr = NoDecor]
    [] e.k = "par" -> [b EXCEPT !.e = F(e.e)]
    [] e.k = "un" -> [b EXCEPT !.e = F(e.e)]
    [] e.k = "bin" -> [b EXCEPT !.l = F(e.l), !.op = FId0(e.op), !.r = F(e.r)]
    [] e.k = "cond" -> [b EXCEPT !.ce = F(e.ce), !.te = F(e.te), !.fe = F(e.fe)]
    [] e.k = "arr" -> [b EXCEPT !.items = FSeq(e.items)]
    [] e.k = "obj" -> [b EXCEPT !.ents = [i \in 1..Len(e.ents) |-> FEnt0(e.ents[i])]]
    [] e.k = "fn" -> [b EXCEPT !.ns = FIds(e.ns), !.name = FId0(e.name), !.args = FSeq(e.args)]
    [] e.k = "trv" -> [b EXCEPT !.e = F(e.e), !.tops = [i \in 1..Len(e.tops) |-> FTop(e.tops[i])]]
    [] e.k = "tpl" -> [TplE(TplOf(e.txt)) EXCEPT !.pre = NoDecor, !.suf = NoDecor]
    [] e.k = "hd" -> [HdE(e.delim, IF e.flush THEN 0 ELSE -1, TplOf(e.txt), NoSpan, <<>>)
                        EXCEPT !.pre = NoDecor, !.suf = NoDecor]
    [] e.k = "for" -> [b EXCEPT !.ipre = NoDecor, !.kv = IF e.hask THEN FId0(@) ELSE @, !.vv = FId0(@),
                                !.coll = F(@), !.ke = IF e.haskey THEN F(@) ELSE @, !.ve = F(@),
                                !.cond = IF e.hasc THEN F(@) ELSE @,
                                !.cpre = IF e.hasc THEN NoDecor ELSE @]
FS(s) ==
  IF s.k = "attr" THEN [FId0(s) EXCEPT !.key = FId0(@), !.val = F(@)]
  ELSE [FId0(s) EXCEPT !.bid = FId0(@), !.labels = FIds(@), !.body = FB(@)]
FB(d) == [FId0(d) EXCEPT !.ss = [i \in 1..Len(d.ss) |-> FS(d.ss[i])]]
Fresh(n) == CASE n.k = "body" -> FB(n)
              [] n.k = "template" -> [n EXCEPT !.els = FEls(n.els)]
              [] OTHER -> F(n)
=============================================================================
