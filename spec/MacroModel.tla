------------------------------- MODULE MacroModel -------------------------------
(***************************************************************************)
(* All invocations of up to MaxLen token trees out of a pool: what the       *)
(* macros have in common.  With GEN every invocation which is specified is   *)
(* printed, to be compiled and run.                                          *)
(***************************************************************************)
EXTENDS HclMacro, HclJson, IOUtils, Json

CONSTANTS MaxLen, Units

VARIABLES kind, toks, n

W(x) == [t |-> "id", s |-> Cp(x)]
StrV(x) == [t |-> "str", v |-> Cp(x)]
DigV(d) == [t |-> "num", v |-> [neg |-> FALSE, digs |-> <<d>>, x |-> 1]]
LitT(v) == [t |-> "lit", v |-> v]
ParT(v) == [t |-> "par", v |-> v]
GrpT(t, ts) == [t |-> t, ts |-> ts]
EqT == [t |-> "eq"]
CommaT == [t |-> "comma"]
NegT == [t |-> "neg"]
Flat == <<W("a"), W("null"), LitT(StrV("b")), LitT(DigV(1)), ParT(StrV("c d")), NegT, EqT, CommaT>>
Exprs == <<GrpT("arr", <<>>), GrpT("arr", <<LitT(DigV(2)), CommaT, W("true")>>),
           GrpT("obj", <<>>), GrpT("obj", <<W("k"), EqT, LitT(DigV(3))>>)>>
(* what is written between the brackets of an expression is the rest of it *)
Pool == Flat \o Exprs
(* With Units, whole items with the same key in all spellings are added. *)
KeyVal(k, v) == <<k, EqT, v>>
ItemPool == <<KeyVal(W("a"), LitT(DigV(1))), KeyVal(W("a"), W("null")), KeyVal(W("b"), W("true")),
              KeyVal(LitT(StrV("a")), GrpT("arr", <<LitT(DigV(2))>>)), KeyVal(LitT(StrV("b")), LitT(DigV(4))),
              KeyVal(ParT(StrV("a")), GrpT("obj", <<W("a"), EqT, LitT(DigV(3))>>)), <<CommaT>>>>
Added == IF Units THEN {ItemPool[k] : k \in 1..Len(ItemPool)} ELSE {<<Pool[k]>> : k \in 1..Len(Pool)}

Init == kind \in (IF Units THEN {"expression", "value"} ELSE Kinds) /\ toks = <<>> /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E ts \in Added : toks' = toks \o ts /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, toks, n>>

(* In expressions and values, the tokens stand in brackets or braces. *)
Views == IF Units THEN {<<GrpT("obj", toks)>>} ELSE IF kind \in {"expression", "value"} THEN {toks, <<GrpT("arr", toks)>>, <<GrpT("obj", toks)>>} ELSE {toks}

(* Both macros for data make the same of it (unless objects have a key both as name and as text), *)
DataAgree == kind = "value" => \A ts \in Views :
  LET e == ExprM("expr", ts)
      v == ExprM("value", ts) IN
  /\ v.ok => e.ok
  /\ v.ok /\ (Units => Len(e.v.ents) = Len(v.v.v)) => EV(e.v) = v.v
(* braces around structures mean nothing, *)
BracesMeanNothing == kind \in {"body", "structure", "attribute", "block"} =>
  (toks # <<>> => Macro(kind, <<GrpT("obj", toks)>>) = Macro(kind, toks))
(* bodies are made of structures, one after the other, *)
BodiesAreSequences == kind = "body" /\ ~Braced(toks) /\ Macro("body", toks).ok => \A k \in 1..(Len(toks) - 1) :
  LET x == SubSeq(toks, 1, k)
      y == SubSeq(toks, k + 1, Len(toks))
      mx == Macro("body", x)
      my == Macro("body", y) IN
  mx.ok /\ my.ok /\ ~Braced(y) => Macro("body", toks).v.ss = mx.v.ss \o my.v.ss
(* and a structure is one macro's or the other's. *)
StructuresAreEither == kind = "structure" =>
  LET s == Macro("structure", toks)
      a == Macro("attribute", toks)
      b == Macro("block", toks) IN
  /\ ~(a.ok /\ b.ok)
  /\ s = IF a.ok THEN a ELSE b
(* Objects have every key once, in the order of first mention, with the last value. *)
KeysOnce == Units => \A ts \in Views :
  LET o == ExprM("value", ts) IN
  o.ok => \A j, k \in 1..Len(o.v.v) : j # k => o.v.v[j][1] # o.v.v[k][1]
Gen == "GEN" \notin DOMAIN IOEnv \/ \A ts \in Views :
         Macro(kind, ts).ok => PrintT(<<"GEN", ToJson([kind |-> kind, ts |-> ts])>>)
=============================================================================
