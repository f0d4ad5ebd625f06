------------------------------- MODULE IterModel -------------------------------
(***************************************************************************)
(* All containers of up to MaxItems items and all sequences of up to MaxOps  *)
(* requests to their iterators: no item is handed out twice, items come in    *)
(* order from the front and in reverse from the back, an iterator at its end  *)
(* stays there, and the items chosen by kind are all items in their order.    *)
(* With GEN the requests are printed, to be made to the code.                  *)
(***************************************************************************)
EXTENDS HclIter, FiniteSets, IOUtils, Json, TLC

CONSTANTS MaxItems, MaxOps, MaxSkip

VARIABLES pat, ops

Requests == {[o |-> o] : o \in {"next", "back", "hint", "clone"} \cup Finals} \cup {[o |-> o, n |-> n] : o \in {"nth", "nthb"}, n \in 1..MaxSkip}
Init == pat \in UNION {[1..n -> {"a", "b"}] : n \in 0..MaxItems} /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ ops # <<>> => ops[Len(ops)].o \notin Finals
        /\ \E r \in Requests : ops' = Append(ops, r)
        /\ UNCHANGED pat
Spec == Init /\ [][Next]_<<pat, ops>>

Whichs == {"all", "a", "b"}
From(w) == Chosen(pat, w)
Ys(w) == Replies(From(w), ops, 1)
Parted == LET all == From("all") a == From("a") b == From("b") IN
  /\ all = [k \in 1..Len(pat) |-> k]
  /\ ToSet(a) \cup ToSet(b) = ToSet(all) /\ ToSet(a) \cap ToSet(b) = {}
(* the items handed out one by one at the front, and at the back *)
RECURSIVE Taken(_, _, _)
Taken(ys, os, k) == IF k > Len(ops) THEN <<>> ELSE (IF ops[k].o \in os THEN ys[k] ELSE <<>>) \o Taken(ys, os, k + 1)
Ascending(q) == \A j \in 1..(Len(q) - 1) : q[j] < q[j + 1]
Orderly == \A w \in Whichs :
  LET ys == Ys(w)
      f == Taken(ys, {"next", "nth", "rest"}, 1)
      b == Reverse(Taken(ys, {"back", "nthb", "rev", "last"}, 1)) IN
  Ascending(f \o b) /\ ToSet(f \o b) = Handed(From(w), ops)
(* what is left out was skipped *)
RECURSIVE Skipped(_, _)
Skipped(w, k) == IF k > Len(ops) THEN 0 ELSE Skips(ops[k]) + Skipped(w, k + 1)
Complete == \A w \in Whichs :
  (ops # <<>> /\ ops[Len(ops)].o \in {"rest", "rev"}) => Cardinality(Handed(From(w), ops)) + Skipped(w, 1) >= Len(From(w))
Fused == \A w \in Whichs : LET ys == Ys(w) IN \A k \in 1..Len(ops) :
  (ops[k].o \in {"next", "back", "nth", "nthb"} /\ ys[k] = <<>>) => \A j \in (k + 1)..Len(ops) : ys[j] \in {<<>>, <<0>>}
Gen == "GEN" \notin DOMAIN IOEnv \/ (Len(ops) < MaxOps /\ (ops = <<>> \/ ops[Len(ops)].o \notin Finals)) \/ PrintT(<<"GEN", ToJson([pat |-> pat, ops |-> ops])>>)
=============================================================================
