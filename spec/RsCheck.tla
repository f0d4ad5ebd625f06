------------------------------- MODULE RsCheck -------------------------------
(* Observations of hcl-rs trees [m, ...]: formatting [src, cfg, tree, out,   *)
(* re] and conversion [s, tree, fresh, enc, re].  m: body, expr, tpl, val.   *)
EXTENDS HclFormat, Obs

C == Cases[i]
Mode == IOEnv.WHAT

FormatOf == IF C.m = "val" THEN FmtV(C.tree, 0, C.cfg) ELSE Format(C.tree, C.cfg)
LayoutOk == LET f == FormatOf IN Why(f, C.out = f)

(* strings of a value which are templates are parsed as such *)
RECURSIVE ValTree(_)
ValTree(v) ==
  CASE v.t = "null" -> NullE
    [] v.t = "bool" -> BoolE(v.v)
    [] v.t = "num" -> [NumE([bare |-> TRUE], <<48>>) EXCEPT !.val = v.v]
    [] v.t = "str" -> IF IsTemplated(v.v) /\ ParsesAsTpl(v.v) THEN RTpl(v.v) ELSE StrE(v.v)
    [] v.t = "arr" -> ArrE([k \in 1..Len(v.v) |-> ValTree(v.v[k])], FALSE, <<>>)
    [] v.t = "obj" -> ObjE([k \in 1..Len(v.v) |-> Ent(StrE(v.v[k][1]), "=", ValTree(v.v[k][2]), "none")], <<>>)
Mode2 == IF C.m = "val" THEN "expr" ELSE C.m
(* Formatted text means what was formatted. *)
Meant == IF C.m = "val" THEN ValTree(C.tree) ELSE C.tree
MeaningOk ==
  /\ Why(<<"re", C.re, Norm(Meant)>>, C.re.r = "ok" /\ Norm(C.re.tree) = Norm(Meant))
  /\ LET p == RParse(Mode2, C.out) IN Why(p, p.t = "ok" /\ C.re.r = "ok" /\ p.v = C.re.tree)

Projected == \* hcl-edit tree -> hcl-rs tree
  IF C.r # "ok" THEN FALSE
  ELSE C.shaken \/ LET p == RParse(C.m, C.s) IN Why(p, p.t = "ok" /\ p.v = C.tree)
Injected ==  \* hcl-rs tree -> hcl-edit tree
  LET f == Fresh(C.tree) IN
  /\ Why(<<"fresh", f, C.fresh>>, C.fresh = f)
  /\ Why(<<"enc", Encode(f)>>, C.enc = Encode(f))
(* and nothing is lost on the way *)
Kept == Why(<<"kept", C.re>>, C.re.r = "ok" /\ Norm(C.re.tree) = Norm(C.tree))

Inv == Report(CASE Mode = "layout" -> LayoutOk
                [] Mode = "meaning" -> MeaningOk
                [] Mode = "convert" -> Projected /\ Injected
                [] Mode = "kept" -> Projected /\ Kept)
=============================================================================
