-------------------------------- MODULE HclIter --------------------------------
(***************************************************************************)
(* Iterators over what a container has, and over the attributes or blocks of  *)
(* a body.  Items are numbered from 1; a container is given by the kinds of   *)
(* its items, "a" and "b".  An iterator is the sequence of the items still to *)
(* come, which requests take from either end:                                 *)
(*   next, back, nth [n], nthb [n], len, hint, clone (what is still to come),  *)
(*   and at the end rest, rev, last, count.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Kinds(which) == IF which = "all" THEN {"a", "b"} ELSE {which}
Chosen(pat, which) == SelectSeq([k \in 1..Len(pat) |-> k], LAMBDA k : pat[k] \in Kinds(which))
Finals == {"rest", "rev", "last", "count"}
Skips(r) == IF r.o \in {"nth", "nthb"} THEN r.n ELSE 0
Atmost(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Drop0(q, n) == SubSeq(q, n + 1, Len(q))
Keep0(q, n) == SubSeq(q, 1, IF n < Len(q) THEN Len(q) - n ELSE 0)
(* what is given for a request, and what is left to come *)
Reply(q, r) ==
  CASE r.o \in {"next", "nth"} -> Atmost(Drop0(q, Skips(r)), 1)
    [] r.o \in {"back", "nthb"} -> Atmost(Reverse(Keep0(q, Skips(r))), 1)
    [] r.o \in {"len", "hint", "count"} -> <<Len(q)>>
    [] r.o \in {"rest", "clone"} -> q
    [] r.o = "rev" -> Reverse(q)
    [] r.o = "last" -> Atmost(Reverse(q), 1)
Left(q, r) ==
  CASE r.o \in {"next", "nth"} -> Drop0(q, Skips(r) + 1)
    [] r.o \in {"back", "nthb"} -> Keep0(q, Skips(r) + 1)
    [] r.o \in Finals -> <<>>
    [] OTHER -> q
RECURSIVE Replies(_, _, _)
Replies(q, rs, k) == IF k > Len(rs) THEN <<>> ELSE <<Reply(q, rs[k])>> \o Replies(Left(q, rs[k]), rs, k + 1)
Yields == {"next", "back", "nth", "nthb", "rest", "rev", "last"}
(* the items which were handed out *)
Handed(q, rs) == LET ys == Replies(q, rs, 1) IN UNION {{ys[k][j] : j \in 1..Len(ys[k])} : k \in {k \in 1..Len(rs) : rs[k].o \in Yields}}
=============================================================================
