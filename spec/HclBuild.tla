------------------------------- MODULE HclBuild -------------------------------
(***************************************************************************)
(* Builders of hcl-rs: a node is started and then changed step by step.      *)
(* A step is a record with the field o, the name of the step, and what is    *)
(* given to it; Started makes the node of the first step, Stepped changes it, *)
(* Built is the node after all steps.                                        *)
(***************************************************************************)
EXTENDS HclSerde

NoName == Id0(<<>>)
IfEl(ic, it) == [k |-> "ifd", sp |-> NoSpan, ist |-> <<FALSE, FALSE>>, ipre |-> <<>>, ic |-> ic, it |-> it, isp |-> NoSpan,
                 hase |-> FALSE, est |-> <<FALSE, FALSE>>, epre |-> <<>>, etr |-> <<>>, et |-> <<>>, esp |-> NoSpan,
                 nst |-> <<FALSE, FALSE>>, npre |-> <<>>, ntr |-> <<>>]
ForEl(vv, coll, ft) == [k |-> "fod", sp |-> NoSpan, fst |-> <<FALSE, FALSE>>, fpre |-> <<>>, hask |-> FALSE, kv |-> NoName,
                        vv |-> vv, coll |-> coll, ft |-> ft, fsp |-> NoSpan, nst |-> <<FALSE, FALSE>>, npre |-> <<>>, ntr |-> <<>>]
IdLabel(s) == [k |-> "lid", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> s]
Body0(ss) == BodyN(ss, FALSE, FALSE)
Ids(ts) == [k \in 1..Len(ts) |-> Id0(ts[k])]

Started(s) ==
  CASE s.o = "for" -> ForE(NoSpan, <<>>, FALSE, NoName, Id0(s.vv), s.coll, FALSE, NullE, s.ve, FALSE, FALSE, NullE, NoSpan, <<>>, <<>>)
    [] s.o = "fn" -> FnE(Ids(s.ns), Id0(s.name), <<>>, FALSE, FALSE, <<>>)
    [] s.o = "trv" -> TrvE(s.e, <<>>)
    [] s.o = "cond" -> CondE(s.ce, s.te, s.fe)
    [] s.o = "un" -> UnE(s.op, NoSpan, s.e)
    [] s.o = "bin" -> BinE(s.l, OpN(s.op), s.r)
    [] s.o = "var" -> VarE(s.name)
    [] s.o = "quoted" -> RTpl(s.txt)
    [] s.o = "hd" -> RHd(s.delim, FALSE, s.txt)
    [] s.o = "tpl" -> <<>>
    [] s.o = "ifd" -> IfEl(s.ic, s.it)
    [] s.o = "fod" -> ForEl(Id0(s.vv), s.coll, s.ft)
    [] s.o = "attr" -> AttrS(Id0(s.name), s.e)
    [] s.o = "block" -> BlockS(Id0(s.name), s.labels, Body0(s.ss))
    [] s.o = "body" -> Body0(s.ss)

Named(tk) == TopId(tk, <<>>)
(* structures which a step adds: one or more of any kind *)
AddSs(n, ss) == IF n.k = "block" THEN [n EXCEPT !.body.ss = @ \o ss] ELSE [n EXCEPT !.ss = @ \o ss]
Stepped(n, s) ==
  CASE s.o = "kvar" -> [n EXCEPT !.hask = TRUE, !.kv = Id0(s.name)]
    [] s.o = "kexpr" -> [n EXCEPT !.haskey = TRUE, !.ke = s.e]
    [] s.o = "if" -> [n EXCEPT !.hasc = TRUE, !.cond = s.e]
    [] s.o = "group" -> [n EXCEPT !.grp = s.b]
    [] s.o = "arg" -> [n EXCEPT !.args = Append(@, s.e)]
    [] s.o = "expand" -> [n EXCEPT !.exp = s.b]
    [] s.o = "get" -> [n EXCEPT !.tops = Append(@, TopId("attr", s.name))]
    [] s.o = "leg" -> [n EXCEPT !.tops = Append(@, TopId("leg", s.digs))]
    [] s.o \in {"asp", "fsp"} -> [n EXCEPT !.tops = Append(@, Named(s.o))]
    [] s.o = "idx" -> [n EXCEPT !.tops = Append(@, TopIx(s.e))]
    [] s.o = "flush" -> [n EXCEPT !.flush = s.b]
    [] s.o = "lit" -> Append(n, LitEl(s.txt))
    [] s.o = "itp" -> Append(n, ItpEl(s.st, s.e))
    [] s.o = "els" -> n \o s.els
    [] s.o = "else" -> [n EXCEPT !.hase = TRUE, !.et = s.els]
    [] s.o = "st1" -> IF n.k = "ifd" THEN [n EXCEPT !.ist = s.st] ELSE [n EXCEPT !.fst = s.st]
    [] s.o = "stelse" -> [n EXCEPT !.est = s.st]
    [] s.o = "st2" -> [n EXCEPT !.nst = s.st]
    [] s.o = "labels" -> [n EXCEPT !.labels = @ \o s.labels]
    [] s.o = "add" -> AddSs(n, s.ss)
RECURSIVE BuiltFrom(_, _, _)
BuiltFrom(n, steps, k) == IF k > Len(steps) THEN n ELSE BuiltFrom(Stepped(n, steps[k]), steps, k + 1)
Built(steps) == BuiltFrom(Started(steps[1]), steps, 2)
=============================================================================
