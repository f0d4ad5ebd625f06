----------------------------- MODULE VisitCheck ------------------------------
(* Observations [m, s, stop, ev, evm, cut, cutm, evc, same, tree] of visiting *)
(* what the text s of mode m is parsed to.                                   *)
EXTENDS HclVisit, Obs

C == Cases[i]
VisitOk ==
  LET p == ParseNoSpans(C.m, C.s, TRUE)
      a == Events(p.v, FALSE)
      b == Events(p.v, TRUE)
  IN p.t = "ok" =>
     /\ C.r = "ok"
     /\ Why(<<"ev", a, C.ev>>, a = C.ev)
     /\ Why(<<"evm", b, C.evm>>, b = C.evm)
     /\ C.same
     /\ C.evc = Len(b)
     /\ Why("cut", C.cut = Cutoff(a, C.stop) /\ C.cutm = Cutoff(b, C.stop))
     /\ LET x == Changed(p.v) IN Why(<<"tree", x, C.tree>>, x = C.tree)
Inv == Report(VisitOk)
=============================================================================
