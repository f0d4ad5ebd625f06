------------------------------- MODULE IdentCheck -------------------------------
(* Observations [m: "id", s, st, ct, is, tries, clean, places, kept] of a text, *)
(* whose characters Unicode allows to start (st) and continue (ct) identifiers, *)
(* and [m: "chars", lo, hi, c, said, reads] of characters about all of which    *)
(* the same is said, one of which is read at the start and inside of names.     *)
EXTENDS HclIdent, Obs

C == Cases[i]
St(k) == C.st[k] \/ C.s[k] = UNDER
Ct(k) == C.ct[k] \/ C.s[k] = MINUS
Is == IsIdent(C.s, St, Ct)
Known(x) == x < 128 \/ x \in XidContinueNA
OkIs(r, v) == r.r = "ok" /\ r.v = v

IdOk ==
  /\ Why(<<"is", Is>>, C.is = Is)
  /\ \A k \in 1..Len(C.s) : Known(C.s[k]) => Why(<<"class", k>>, St(k) = IsIdStart(C.s[k]) /\ Ct(k) = IsIdCont(C.s[k]))
  /\ \A k \in 1..Len(C.tries) : Why(<<"try", k, C.tries[k]>>, IF Is THEN OkIs(C.tries[k], C.s) ELSE C.tries[k].r = "err")
  /\ \A k \in 1..Len(C.clean) : Why(<<"clean", k, C.clean[k]>>, OkIs(C.clean[k], Sanitized(C.s, St, Ct)))
  /\ \A k \in 1..Len(C.places) : LET p == C.places[k] IN
       Why(<<"place", p>>, p.id.r # "panic" /\ (OkIs(p.id, C.s) = (Is /\ C.s \notin Not(p.w))))
  /\ \A k \in 1..Len(C.kept.texts) : Why(<<"kept", k>>, C.kept.texts[k] = C.s)
  /\ Why(<<"equal">>, C.kept.same)

CharsOk ==
  LET start == C.said[1] \/ (C.lo = UNDER /\ C.hi = UNDER)
      cont == C.said[2] \/ (C.lo = MINUS /\ C.hi = MINUS) IN
  /\ Why(<<"said", start, cont>>, C.said[3] = start /\ C.said[4] = cont)
  /\ Why(<<"read", start, cont>>, C.reads # <<>> => C.reads = <<start, cont, start, cont>>)
Inv == Report(IF C.m = "id" THEN IdOk ELSE CharsOk)
=============================================================================
