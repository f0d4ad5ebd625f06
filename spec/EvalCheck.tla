------------------------------ MODULE EvalCheck ------------------------------
(* Observations of evaluation [m, s, vars, fns, res, inp]: a text of mode m  *)
(* (body, expr, tpl) is parsed and evaluated, also in place.                *)
EXTENDS HclEval, Obs

J == INSTANCE HclJson
C == Cases[i]
What == IOEnv.WHAT
Ctx0 == [vars |-> [k \in 1..Len(C.vars) |-> <<C.vars[k][1], VIn(C.vars[k][2])>>], fns |-> C.fns, up |-> NoTree, own |-> NoTree]
Tree == ROf(ParseNoSpans(C.m, C.s, FALSE).v)

PayOk(k, x, o) ==
  /\ x.s = o.s
  /\ IF k = "call" THEN o.op = "?" \/ (o.op = x.op /\ (x.op = "type" => Same(x.vs[1], VIn(o.vs[1]))))
     ELSE x.op = o.op /\ Len(x.vs) = Len(o.vs) /\ \A j \in 1..Len(x.vs) : Same(x.vs[j], VIn(o.vs[j]))
ErrOk(r, o) == o.r = "err" /\ o.k = r.k /\ PayOk(r.k, r.x, o) /\ o.at = r.at
               /\ (r.k # "msg" => Why(<<"text", o.text, ErrText(r)>>, o.text = ErrText(r)))
ResOk(r, o) ==
  IF r.t = "err" THEN ErrOk(r, o)
  ELSE /\ o.r = "ok"
       /\ CASE C.m = "expr" -> Same(r.v, VIn(o.v))
            [] OTHER -> r.v = o.v
EvalOk == LET r == EvalNode(Tree, Ctx0) IN Why(<<"eval", r, C.res>>, ResOk(r, C.res))
(* Documents are evaluated before they are read as data and after they were   *)
(* written as data.                                                           *)
ThenOk ==
  LET r == EvalNode(Tree, Ctx0)
      b == IF r.t = "ok" THEN [Tree EXCEPT !.ss = r.v] ELSE Tree
      Gives(o, v) == IF r.t = "ok" THEN o.r = "ok" /\ o.v = v
                    ELSE o.r = "err" /\ (r.k # "msg" => o.text = Cp("eval error: ") \o ErrText(r))
  IN C.m = "body" =>
     /\ Why(<<"text">>, Gives(C.text, FmtBody(b, J!PlainCfg)))
     /\ Why(<<"val">>, Gives(C.val, J!AsValue(b)))
     /\ Why(<<"doc">>, Gives(C.doc, r.v))
InOk == LET x == InNode(Tree, Ctx0) IN
        /\ Why(<<"in", x, C.inp>>, C.inp.r = "ok")
        /\ Why(<<"tree", x.n, C.inp.n>>, x.n = C.inp.n)
        /\ Why(<<"errs", x.errs, C.inp.errs>>, /\ Len(x.errs) = Len(C.inp.errs)
                                                /\ \A j \in 1..Len(x.errs) : ErrOk(x.errs[j], C.inp.errs[j]))
        /\ Why(<<"all", C.inp.text>>, IF x.errs = <<>> THEN C.inp.text = <<>>
                                      ELSE (\A j \in 1..Len(x.errs) : x.errs[j].k # "msg") => C.inp.text = ErrsText(x.errs))
(* What the rules of evaluation in place promise about plain evaluation:    *)
(* it yields the same before and after.                                      *)
Outcome(r) == IF r.t = "err" THEN <<"err", r.k>> ELSE <<"ok", r.v>>
KeepsMeaning == LET a == EvalNode(Tree, Ctx0)
                    x == InNode(Tree, Ctx0)
                    b == EvalNode(x.n, Ctx0)
                IN Why(<<"meaning", a, x, b>>, Outcome(a) = Outcome(b) /\ (C.m # "tpl" /\ x.errs = <<>> => a.t = "ok"))
Inv == Report(CASE What = "eval" -> EvalOk /\ ThenOk [] What = "in" -> InOk /\ KeepsMeaning)
=============================================================================
