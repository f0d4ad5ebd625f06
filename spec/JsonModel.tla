------------------------------- MODULE JsonModel -------------------------------
(***************************************************************************)
(* All documents of up to MaxLen structures out of a pool which is all       *)
(* about names: what the mapping to values guarantees, whatever the order of *)
(* structures is.  With GEN every document is printed, to be mapped by the   *)
(* code.                                                                     *)
(***************************************************************************)
EXTENDS HclJson, HclText, IOUtils, Json

CONSTANTS MaxLen

VARIABLES doc
Id(x) == Id0(Cp(x))
LI(x) == LabelI(Cp(x))
LS(x) == LabelS(Cp(x))
NumD(d) == [NumE([bare |-> TRUE], <<48>>) EXCEPT !.val = [neg |-> FALSE, digs |-> <<d>>, x |-> 1]]
B(ss) == BodyN(ss, FALSE, FALSE)
A(k, d) == AttrS(Id(k), NumD(d))
Bl(k, ls, ss) == BlockS(Id(k), ls, B(ss))
Pool == <<
  A("a", 1), A("b", 2), Bl("a", <<>>, <<>>), Bl("a", <<>>, <<A("x", 1)>>), Bl("a", <<LS("a")>>, <<>>),
  Bl("a", <<LI("b")>>, <<A("y", 2)>>), Bl("a", <<LS("b")>>, <<Bl("a", <<>>, <<>>)>>), Bl("b", <<LI("a"), LS("b")>>, <<A("x", 1)>>),
  Bl("a", <<LI("b"), LI("c")>>, <<A("x", 3)>>), Bl("b", <<>>, <<A("a", 1), Bl("a", <<LS("a")>>, <<>>)>>) >>

Init == doc = B(<<>>)
Next == Len(doc.ss) < MaxLen /\ \E k \in 1..Len(Pool) : doc' = [doc EXCEPT !.ss = Append(@, Pool[k])]
Spec == Init /\ [][Next]_doc

V == AsValue(doc)
PathOf(s) == IF s.k = "attr" THEN <<s.key.id>> ELSE <<s.bid.id>> \o [k \in 1..Len(s.labels) |-> LabelTextJ(s.labels[k])]
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* Documents in which no name stands for two kinds of things *)
Clean(b) == \A i, j \in 1..Len(b.ss) : i # j =>
  /\ ~Prefix(PathOf(b.ss[i]), PathOf(b.ss[j]))
  /\ PathOf(b.ss[i]) = PathOf(b.ss[j]) => b.ss[i].k = "block" /\ b.ss[j].k = "block"
RECURSIVE Look(_, _, _)
Look(v, path, k) == IF k > Len(path) THEN v
                    ELSE Look(v.v[CHOOSE j \in Spot(v.v, path[k]) : TRUE][2], path, k + 1)
Same(b, path) == SelectSeq(b.ss, LAMBDA s : PathOf(s) = path)
ValOf(s) == IF s.k = "attr" THEN EV(s.val) ELSE AsValue(s.body)
(* ... are found under their identifier and labels, in order. *)
Found == Clean(doc) => \A k \in 1..Len(doc.ss) :
  LET same == Same(doc, PathOf(doc.ss[k])) IN
  Look(V, PathOf(doc.ss[k]), 1) = IF Len(same) = 1 THEN ValOf(same[1])
                                  ELSE VArr([n \in 1..Len(same) |-> ValOf(same[n])])
(* Keys are those of the structures, in the order of their first use. *)
Firsts(b) == SelectSeq([k \in 1..Len(b.ss) |-> k],
                       LAMBDA k : \A j \in 1..(k - 1) : PathOf(b.ss[j])[1] # PathOf(b.ss[k])[1])
Keys == /\ V.t = "obj"
        /\ [k \in 1..Len(V.v) |-> V.v[k][1]] = [k \in 1..Len(Firsts(doc)) |-> PathOf(doc.ss[Firsts(doc)[k]])[1]]
(* What comes last is there, whatever it replaces. *)
LastWins == doc.ss # <<>> =>
  LET s == doc.ss[Len(doc.ss)]
      v == Look(V, PathOf(s), 1) IN
  v = ValOf(s) \/ (s.k = "block" /\ v.t = "arr" /\ v.v[Len(v.v)] = ValOf(s))
RECURSIVE Distinct(_)
Distinct(v) ==
  CASE v.t = "arr" -> \A k \in 1..Len(v.v) : Distinct(v.v[k])
    [] v.t = "obj" -> \A k \in 1..Len(v.v) : Spot(v.v, v.v[k][1]) = {k} /\ Distinct(v.v[k][2])
    [] OTHER -> TRUE
NoKeyTwice == Distinct(V)

Text == FmtBody(doc, PlainCfg)
Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([text |-> [k \in 1..Len(doc.ss) |-> FmtBody(B(<<doc.ss[k]>>), PlainCfg)]])>>)
=============================================================================
