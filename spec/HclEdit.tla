------------------------------- MODULE HclEdit -------------------------------
(***************************************************************************)
(* Modifications of syntax trees: the state is a document tree, every       *)
(* operation of the editing interface is a transition.  Apply(n, path, op)  *)
(* is [n |-> the tree afterwards, r |-> what the operation returns].        *)
(***************************************************************************)
EXTENDS HclParser, HclEncode

None == [t |-> "none"]
Nodes(ns) == [t |-> "nodes", ns |-> ns]
Yes(b) == [t |-> "bool", b |-> b]
Panic == [t |-> "panic"]
Res(n, r) == [n |-> n, r |-> r]
Just(n) == Res(n, None)

RemoveIdx(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertIdx(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
AtIdx(s, k) == IF k > Len(s) THEN <<>> ELSE <<s[k]>>
First(s, P(_)) == IF \E k \in 1..Len(s) : P(s[k])
                  THEN CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in 1..(k - 1) : ~P(s[j]) ELSE 0
SelS(s, P(_)) == SelectSeq(s, P)
Dec(n, pre, suf) == [n EXCEPT !.pre = pre, !.suf = suf]

(* sequences: structures, items, arguments, template elements *)
SeqPop(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
SeqLast(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>

-----------------------------------------------------------------------------
(* Bodies: an attribute key is defined at most once. *)
IsAttr(s) == s.k = "attr"
AttrPos(b, key) == First(b.ss, LAMBDA s : IsAttr(s) /\ s.key.id = key)
HasAttr(b, key) == AttrPos(b, key) # 0
BlocksOf(b, id) == SelS(b.ss, LAMBDA s : ~IsAttr(s) /\ s.bid.id = id)
Refused(b, st) == IsAttr(st) /\ HasAttr(b, st.key.id)
RECURSIVE PushAll(_, _, _)
Push(b, st) == IF Refused(b, st) THEN b ELSE [b EXCEPT !.ss = Append(@, st)]
PushAll(b, sts, k) == IF k > Len(sts) THEN b ELSE PushAll(Push(b, sts[k]), sts, k + 1)
Each(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
AtPos(s, k, F(_)) == [s EXCEPT ![k] = F(@)]

NewBody == [k |-> "body", sp |-> <<>>, pre |-> NoDecor, suf |-> NoDecor, ss |-> <<>>, one |-> FALSE, omit |-> FALSE]

BodyOp(b, op) ==
  LET o == op.o IN
  CASE o = "push" -> Just(Push(b, op.st))
    [] o = "tpush" -> Res(Push(b, op.st), Nodes(IF Refused(b, op.st) THEN <<op.st>> ELSE <<>>))
    [] o \in {"ins", "tins"} ->
         IF Refused(b, op.st) THEN Res(b, IF o = "ins" THEN None ELSE Nodes(<<op.st>>))
         ELSE IF op.idx > Len(b.ss) + 1 THEN Res(b, Panic)
         ELSE Res([b EXCEPT !.ss = InsertIdx(@, op.idx, op.st)], IF o = "ins" THEN None ELSE Nodes(<<>>))
    [] o = "pop" -> Res([b EXCEPT !.ss = SeqPop(@)], Nodes(SeqLast(b.ss)))
    [] o = "rem" -> IF op.idx > Len(b.ss) THEN Res(b, Panic)
                    ELSE Res([b EXCEPT !.ss = RemoveIdx(@, op.idx)], Nodes(<<b.ss[op.idx]>>))
    [] o = "rema" -> LET k == AttrPos(b, op.key) IN
                     IF k = 0 THEN Res(b, Nodes(<<>>))
                     ELSE Res([b EXCEPT !.ss = RemoveIdx(@, k)], Nodes(<<b.ss[k]>>))
    [] o = "remb" -> Res([b EXCEPT !.ss = SelS(@, LAMBDA s : IsAttr(s) \/ s.bid.id # op.key)],
                         Nodes(BlocksOf(b, op.key)))
    [] o = "clr" -> Just([b EXCEPT !.ss = <<>>])
    [] o = "one" -> Just([b EXCEPT !.one = op.flag])
    [] o = "omit" -> Just([b EXCEPT !.omit = op.flag])
    [] o = "ext" -> Just(PushAll(b, op.sts, 1))
    [] o = "dec" -> Just(Dec(b, op.pre, op.suf))
    [] o = "get" -> Res(b, Nodes(AtIdx(b.ss, op.idx)))
    [] o = "prefs" -> Res(b, [t |-> "bools", bs |-> <<b.one, b.omit>>])
    [] o = "bfrom" -> Just(PushAll(NewBody, b.ss \o op.sts, 1))
    [] o = "hasa" -> Res(b, Yes(HasAttr(b, op.key)))
    [] o = "hasb" -> Res(b, Yes(BlocksOf(b, op.key) # <<>>))
    [] o = "geta" -> Res(b, Nodes(IF HasAttr(b, op.key) THEN <<b.ss[AttrPos(b, op.key)]>> ELSE <<>>))
    [] o = "getb" -> Res(b, Nodes(BlocksOf(b, op.key)))
    [] o \in {"attrs", "intoa"} -> Res(b, Nodes(SelS(b.ss, IsAttr)))
    [] o \in {"blocks", "intob"} -> Res(b, Nodes(SelS(b.ss, LAMBDA s : ~IsAttr(s))))
    [] o = "len" -> Res(b, [t |-> "num", n |-> Len(b.ss)])
    [] o = "vala" -> LET k == AttrPos(b, op.key) IN
                     IF k = 0 THEN Res(b, Yes(FALSE))
                     ELSE Just([b EXCEPT !.ss = AtPos(@, k, LAMBDA s : [s EXCEPT !.val = op.ex])])
    [] o = "deca" -> LET k == AttrPos(b, op.key) IN
                     IF k = 0 THEN Res(b, Yes(FALSE))
                     ELSE Just([b EXCEPT !.ss = AtPos(@, k, LAMBDA s :
                            [Dec(s, op.pre, op.suf) EXCEPT !.key.suf = op.suf])])
    [] o = "allv" -> Just([b EXCEPT !.ss = Each(@, LAMBDA s : IF IsAttr(s) THEN [s EXCEPT !.val = op.ex] ELSE s)])
    [] o = "alld" -> Just([b EXCEPT !.ss = Each(@, LAMBDA s : Dec(s, op.pre, op.suf))])
    [] o = "blab" -> Just([b EXCEPT !.ss = Each(@, LAMBDA s :
                       IF IsAttr(s) \/ s.bid.id # op.key THEN s ELSE [s EXCEPT !.labels = Append(@, op.lab)])])
    [] o = "bone" -> Just([b EXCEPT !.ss = Each(@, LAMBDA s :
                       IF IsAttr(s) THEN s ELSE [s EXCEPT !.body.one = op.flag])])

LabelText(l) == IF l.k = "lstr" THEN l.lsv ELSE l.id
StructOp(s, op) ==
  LET o == op.o IN
  CASE o = "dec" -> Just(Dec(s, op.pre, op.suf))
    [] o = "undec" -> Just(Dec(s, NoDecor, NoDecor))
    [] o = "kdec" -> Just([s EXCEPT !.key = Dec(@, op.pre, op.suf)])
    [] o = "hask" -> Res(s, Yes(s.key.id = op.key))
    [] o = "bid" -> Just([s EXCEPT !.bid = op.id])
    [] o = "lpush" -> Just([s EXCEPT !.labels = Append(@, op.lab)])
    [] o = "lpop" -> Just([s EXCEPT !.labels = SeqPop(@)])
    [] o = "bbld" -> Just([Dec(s, NoDecor, NoDecor) EXCEPT !.body = PushAll(NewBody, s.body.ss, 1)])
    [] o = "anew" -> Just(Dec(s, NoDecor, NoDecor))
    [] o = "haslab" ->
         LET ls == [k \in 1..Len(s.labels) |-> LabelText(s.labels[k])]
             n == Len(op.labs)
         IN Res(s, [t |-> "bools", bs |-> <<Len(ls) >= n /\ SubSeq(ls, 1, n) = op.labs, ls = op.labs,
                                            s.bid.id = op.key>>])

-----------------------------------------------------------------------------
(* Arrays and function arguments are sequences of expressions; objects map   *)
(* keys, compared up to decor, and keep the order of insertion.              *)
ItemsOp(n, s, op) == \* s: the items; result is <<items, r>>
  LET o == op.o IN
  CASE o = "apush" -> <<Append(s, op.ex), None>>
    [] o = "ains" -> IF op.idx > Len(s) + 1 THEN <<s, Panic>> ELSE <<InsertIdx(s, op.idx, op.ex), None>>
    [] o = "apop" -> <<SeqPop(s), Nodes(SeqLast(s))>>
    [] o = "arem" -> IF op.idx > Len(s) THEN <<s, Panic>>
                     ELSE <<RemoveIdx(s, op.idx), Nodes(<<s[op.idx]>>)>>
    [] o = "aclr" -> <<<<>>, None>>
    [] o \in {"aext", "afrom"} -> <<s \o op.exs, None>>
    [] o = "aget" -> <<s, Nodes(AtIdx(s, op.idx))>>
    [] o = "ainfo" -> <<s, [t |-> "info", n |-> Len(s), tr |-> n.tr,
                            bs |-> <<s = <<>>, n.tc, IF n.k = "fn" THEN n.exp ELSE FALSE>>]>>
    [] o = "aall" -> <<Each(s, LAMBDA e : Dec(e, op.pre, op.suf)), None>>

RECURSIVE InsertAll(_, _, _)
InsertAll(ents, more, k) == IF k > Len(more) THEN ents ELSE InsertAll(InsertEnt(ents, more[k]), more, k + 1)

ObjOp(n, op) ==
  LET o == op.o
      pos(k) == EntPos(n.ents, k, 1)
  IN
  CASE o = "oins" -> LET k == pos(op.ent.key) IN
                     Res([n EXCEPT !.ents = InsertEnt(@, op.ent)],
                         Nodes(IF k = 0 THEN <<>> ELSE <<n.ents[k].val>>))
    [] o = "orem" -> LET k == pos(op.key) IN
                     IF k = 0 THEN Res(n, Nodes(<<>>))
                     ELSE Res([n EXCEPT !.ents = RemoveIdx(@, k)], Nodes(<<n.ents[k].val>>))
    [] o = "oreme" -> LET k == pos(op.key) IN
                      IF k = 0 THEN Res(n, Nodes(<<>>))
                      ELSE Res([n EXCEPT !.ents = RemoveIdx(@, k)], Nodes(<<n.ents[k].key, n.ents[k].val>>))
    [] o = "oclr" -> Just([n EXCEPT !.ents = <<>>])
    [] o = "otr" -> Just([n EXCEPT !.tr = op.txt])
    [] o = "oext" -> Just([n EXCEPT !.ents = InsertAll(@, op.ents, 1)])
    [] o = "ofrom" -> Just([Dec(n, NoDecor, NoDecor) EXCEPT !.ents = InsertAll(@, op.ents, 1), !.tr = <<>>])
    [] o = "oinfo" -> Res(n, [t |-> "info", n |-> Len(n.ents), tr |-> n.tr, bs |-> <<n.ents = <<>>, FALSE, FALSE>>])
    [] o = "oget" -> LET k == pos(op.key) IN Res(n, Nodes(IF k = 0 THEN <<>> ELSE <<n.ents[k].val>>))
    [] o = "okdec" -> LET k == pos(op.key) IN
                      IF k = 0 THEN Res(n, Yes(FALSE))
                      ELSE Just([n EXCEPT !.ents[k].key = Dec(@, op.pre, op.suf)])
    [] o = "oval" -> LET k == pos(op.key) IN
                     IF k = 0 THEN Res(n, Yes(FALSE)) ELSE Just([n EXCEPT !.ents[k].val = op.ex])
    [] o = "oall" -> Just([n EXCEPT !.ents = Each(@, LAMBDA e :
                       [e EXCEPT !.key = Dec(@, op.pre, op.suf), !.asg = IF op.flag THEN "=" ELSE ":",
                                 !.term = op.term])])

ElsOp(s, op) ==
  LET o == op.o IN
  CASE o = "xpush" -> <<Append(s, op.el), None>>
    [] o = "xins" -> IF op.idx > Len(s) + 1 THEN <<s, Panic>> ELSE <<InsertIdx(s, op.idx, op.el), None>>
    [] o = "xpop" -> <<SeqPop(s), Nodes(SeqLast(s))>>
    [] o = "xrem" -> IF op.idx > Len(s) THEN <<s, Panic>> ELSE <<RemoveIdx(s, op.idx), Nodes(<<s[op.idx]>>)>>
    [] o = "xclr" -> <<<<>>, None>>
    [] o \in {"xext", "xfrom"} -> <<s \o op.els, None>>
    [] o = "xget" -> <<s, Nodes(AtIdx(s, op.idx))>>
    [] o = "xlen" -> <<s, [t |-> "num", n |-> Len(s)]>>
    [] o = "xone" -> <<s, Nodes(IF Len(s) = 1 THEN s ELSE <<>>)>>
    [] o = "xset" -> IF Len(s) = 1 THEN <<<<op.el>>, None>> ELSE <<s, Yes(FALSE)>>
    [] o = "xall" -> <<Each(s, LAMBDA x : IF x.k = "lit" THEN [x EXCEPT !.lv = op.txt] ELSE x), None>>

(* Elements of templates: literals, interpolations and directives, which     *)
(* have templates themselves: w tells which one.                             *)
PartOp(d, op) ==
  CASE d.k = "ifd" /\ op.w = 1 -> Just([d EXCEPT !.ipre = op.pre, !.ist = op.st])
    [] d.k = "fod" /\ op.w = 1 -> Just([d EXCEPT !.fpre = op.pre, !.fst = op.st])
    [] op.w = 2 /\ (d.k = "fod" \/ ~d.hase) -> Res(d, Yes(FALSE))
    [] op.w = 2 -> Just([d EXCEPT !.epre = op.pre, !.etr = op.suf, !.est = op.st])
    [] OTHER -> Just([d EXCEPT !.npre = op.pre, !.ntr = op.suf, !.nst = op.st])
ElseOp(d, op) ==
  IF d.k = "fod" THEN Res(d, Yes(FALSE))
  ELSE Just([d EXCEPT !.hase = op.flag, !.et = IF op.flag THEN op.els ELSE <<>>,
                      !.epre = <<>>, !.etr = <<>>, !.est = <<FALSE, FALSE>>])
ElOp(x, op) ==
  CASE op.o = "est" -> Just([x EXCEPT !.st = op.st])
    [] op.o = "lset" -> Just([x EXCEPT !.lv = op.txt])
    [] op.o = "dnew" -> Just(x)
    [] op.o = "dels" -> ElseOp(x, op)
    [] op.o = "dpre" -> PartOp(x, op)
    [] op.w = 2 /\ (x.k = "fod" \/ ~x.hase) -> Res(x, Yes(FALSE))
    [] x.k = "fod" -> LET r == ElsOp(x.ft, op) IN Res([x EXCEPT !.ft = r[1]], r[2])
    [] op.w = 1 -> LET r == ElsOp(x.it, op) IN Res([x EXCEPT !.it = r[1]], r[2])
    [] OTHER -> LET r == ElsOp(x.et, op) IN Res([x EXCEPT !.et = r[1]], r[2])

(* Removing the indentation of a heredoc: lines whose start is not a literal *)
(* have none.                                                                *)
Dedented(h) == LET ind == HeredocIndent(h.els) IN [h EXCEPT !.els = HeredocDedent(@, ind), !.ind = ind]

ExprOp(e, op) ==
  LET o == op.o IN
  CASE o = "set" -> Just(op.ex)
    [] o = "dec" -> Just(Dec(e, op.pre, op.suf))
    [] o = "undec" -> Just(Dec(e, NoDecor, NoDecor))
    [] o = "nval" -> Just([e EXCEPT !.val = op.num, !.repr = NoDecor])
    [] o = "nfmt" -> Just([e EXCEPT !.repr = NumText(e.val)])
    [] o = "atc" -> Just([e EXCEPT !.tc = op.flag])
    [] o = "atr" -> Just([e EXCEPT !.tr = op.txt])
    [] o = "aexp" -> Just([e EXCEPT !.exp = op.flag])
    [] o = "hind" -> Just([e EXCEPT !.ind = op.ind])
    [] o = "hdelim" -> Just([e EXCEPT !.delim = op.key])
    [] o = "htr" -> Just([e EXCEPT !.tr = op.txt])
    [] o = "fns" -> Just([e EXCEPT !.ns = op.ids])
    [] o = "isns" -> Res(e, Yes(e.ns # <<>>))
    [] o = "hded" -> Just(Dedented(e))
    [] o = "hinfo" -> Res(e, [t |-> "hinfo", n |-> e.ind, tr |-> e.tr])
    [] o = "xconv" -> Just(Dec(e, NoDecor, NoDecor))
    [] o = "xfrom" /\ e.k = "tpl" -> Just([Dec(e, NoDecor, NoDecor) EXCEPT !.els = @ \o op.els])
    [] o = "afrom" /\ e.k = "arr" -> Just([Dec(e, NoDecor, NoDecor) EXCEPT !.items = @ \o op.exs, !.tc = FALSE, !.tr = <<>>])
    [] o = "afrom" -> Just([e EXCEPT !.args = @ \o op.exs, !.tc = FALSE, !.tr = <<>>, !.exp = FALSE])
    [] e.k = "arr" -> LET r == ItemsOp(e, e.items, op) IN Res([e EXCEPT !.items = r[1]], r[2])
    [] e.k = "fn" -> LET r == ItemsOp(e, e.args, op) IN Res([e EXCEPT !.args = r[1]], r[2])
    [] e.k = "obj" -> ObjOp(e, op)
    [] e.k \in {"tpl", "hd"} -> LET r == ElsOp(e.els, op) IN Res([e EXCEPT !.els = r[1]], r[2])

NodeOp(n, op) ==
  CASE n.k = "body" -> BodyOp(n, op)
    [] n.k \in {"attr", "block"} -> StructOp(n, op)
    [] n.k \in {"lit", "itp", "ifd", "fod"} -> ElOp(n, op)
    [] OTHER -> ExprOp(n, op)

-----------------------------------------------------------------------------
(* Nodes below a node, as the harness numbers them. *)
Sub(n, k) ==
  CASE n.k = "body" -> n.ss[k]
    [] n.k = "attr" -> n.val
    [] n.k = "block" -> n.body
    [] n.k = "arr" -> n.items[k]
    [] n.k = "obj" -> n.ents[k].val
    [] n.k = "fn" -> n.args[k]
    [] n.k \in {"par", "un", "trv"} -> n.e
    [] n.k = "cond" -> IF k = 1 THEN n.ce ELSE IF k = 2 THEN n.te ELSE n.fe
    [] n.k = "bin" -> IF k = 1 THEN n.l ELSE n.r
    [] n.k = "for" -> IF k = 1 THEN n.coll ELSE n.ve
    [] n.k \in {"tpl", "hd"} -> n.els[k]
    [] n.k = "itp" -> n.e
    [] n.k = "ifd" -> IF k > 200 THEN n.et[k - 200] ELSE IF k > 100 THEN n.it[k - 100] ELSE n.ic
    [] n.k = "fod" -> IF k > 100 THEN n.ft[k - 100] ELSE n.coll
PutSub(n, k, x) ==
  CASE n.k = "body" -> [n EXCEPT !.ss[k] = x]
    [] n.k = "attr" -> [n EXCEPT !.val = x]
    [] n.k = "block" -> [n EXCEPT !.body = x]
    [] n.k = "arr" -> [n EXCEPT !.items[k] = x]
    [] n.k = "obj" -> [n EXCEPT !.ents[k].val = x]
    [] n.k = "fn" -> [n EXCEPT !.args[k] = x]
    [] n.k \in {"par", "un", "trv"} -> [n EXCEPT !.e = x]
    [] n.k = "cond" -> IF k = 1 THEN [n EXCEPT !.ce = x]
                       ELSE IF k = 2 THEN [n EXCEPT !.te = x] ELSE [n EXCEPT !.fe = x]
    [] n.k = "bin" -> IF k = 1 THEN [n EXCEPT !.l = x] ELSE [n EXCEPT !.r = x]
    [] n.k = "for" -> IF k = 1 THEN [n EXCEPT !.coll = x] ELSE [n EXCEPT !.ve = x]
    [] n.k \in {"tpl", "hd"} -> [n EXCEPT !.els[k] = x]
    [] n.k = "itp" -> [n EXCEPT !.e = x]
    [] n.k = "ifd" -> IF k > 200 THEN [n EXCEPT !.et[k - 200] = x]
                      ELSE IF k > 100 THEN [n EXCEPT !.it[k - 100] = x] ELSE [n EXCEPT !.ic = x]
    [] n.k = "fod" -> IF k > 100 THEN [n EXCEPT !.ft[k - 100] = x] ELSE [n EXCEPT !.coll = x]

RECURSIVE Apply(_, _, _)
Apply(n, path, op) ==
  IF path = <<>> THEN NodeOp(n, op)
  ELSE LET r == Apply(Sub(n, path[1]), Tail(path), op) IN [r EXCEPT !.n = PutSub(n, path[1], r.n)]

(* No attribute is defined twice anywhere. *)
RECURSIVE UniqueKeys(_)
UniqueKeys(b) ==
  /\ \A j, k \in 1..Len(b.ss) :
       IsAttr(b.ss[j]) /\ IsAttr(b.ss[k]) /\ b.ss[j].key.id = b.ss[k].key.id => j = k
  /\ \A k \in 1..Len(b.ss) : IsAttr(b.ss[k]) \/ UniqueKeys(b.ss[k].body)
=============================================================================
