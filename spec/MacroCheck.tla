------------------------------- MODULE MacroCheck -------------------------------
(* Observations [kind, ts, out]: invocations of macros and what they made.     *)
EXTENDS HclMacro, Obs

C == Cases[i]
MacroOk == LET r == Macro(C.kind, C.ts) IN Why(<<r, C.out>>, r.ok /\ C.out.r = "ok" /\ C.out.v = r.v)
Inv == Report(MacroOk)
=============================================================================
