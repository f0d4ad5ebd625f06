------------------------------- MODULE JsonCheck -------------------------------
(* Observations [m, s, tree, val, expr, de, back]: a document or expression,  *)
(* its conversions to a value and an expression, what each way of            *)
(* deserialization makes of it, and the value turned into an expression and   *)
(* back.                                                                      *)
EXTENDS HclJson, Obs

C == Cases[i]
ValuesOk ==
  LET e == AsExpr(C.tree)
      v == EV(e) IN
  /\ C.m = "body" => Why(<<"expr", e>>, C.expr.r = "ok" /\ C.expr.v = e)
  /\ Why(<<"val", v>>, C.val.r = "ok" /\ C.val.v = v)
  /\ \A k \in 1..Len(C.de) :
       Why(<<"de", k, v>>, IF GoodKeys(e) THEN C.de[k].r = "ok" /\ C.de[k].v = v ELSE C.de[k].r = "err")
  /\ Why(<<"back", v>>, C.back.r = "ok" /\ C.back.v = v)
Inv == Report(ValuesOk)
=============================================================================
