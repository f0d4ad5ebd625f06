------------------------------- MODULE SerCheck -------------------------------
(* Observations [x, text, body, expr, val, js]: data, and what each way of      *)
(* serializing makes of them: texts, a document, expressions, a value, and      *)
(* what a serializer of another library is given.                               *)
EXTENDS HclSerde, Obs

C == Cases[i]
Same(o, r) == IF r = NoRes THEN o.r = "err" ELSE o.r = "ok" /\ o.v = r[1]
(* JSON has no optional keys *)
RECURSIVE OptKey(_), OptKeys(_)
OptKey(k) == k.d = "some" \/ (k.d \in {"nstruct", "nvar", "block", "lblock"} /\ OptKey(k.v))
OptKeys(x) ==
  CASE x.d \in {"some", "nstruct", "nvar", "block", "lblock", "dlblock"} -> OptKeys(x.v)
    [] x.d \in {"seq", "tup", "tstruct", "tvar"} -> \E k \in 1..Len(x.xs) : OptKeys(x.xs[k])
    [] x.d = "map" -> \E k \in 1..Len(x.ps) : OptKey(x.ps[k][1]) \/ OptKeys(x.ps[k][2])
    [] x.d \in {"struct", "svar"} -> \E k \in 1..Len(x.ps) : OptKeys(x.ps[k][2])
    [] OTHER -> FALSE
SerOk ==
  LET b == SerDocR(C.x)
      e == SerER(C.x)
      v == SerVR(C.x)
      txt == IF b = NoRes THEN NoRes ELSE Res(FmtBody(b[1], PlainCfg)) IN
  /\ Why(<<"body", b>>, Same(C.body, b))
  /\ \A k \in 1..Len(C.text) : Why(<<"text", k, txt>>, Same(C.text[k], txt))
  /\ \A k \in 1..Len(C.expr) : Why(<<"expr", k, e>>, Same(C.expr[k], e))
  /\ Why(<<"val", v>>, Same(C.val, v))
  /\ v # NoRes /\ ~OptKeys(Reduce(C.x, TRUE)) => Why(<<"js", v>>, Same(C.js, v))
Inv == Report(SerOk)
=============================================================================
