------------------------------- MODULE EqCheck --------------------------------
(* Observations [m, how, a, b, eq, qe, ne, clone, own]: two trees, and how     *)
(* they, and clones of them, compare.                                         *)
EXTENDS HclEq, Obs

C == Cases[i]
EqOk == LET same == SameTree(C.m, C.a, C.b) IN
  /\ Why(<<"same", same>>, C.eq = same /\ C.qe = same /\ C.clone = same)
  /\ C.ne = ~same
  /\ C.own
Inv == Report(EqOk)
=============================================================================
