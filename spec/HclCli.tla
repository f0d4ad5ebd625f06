-------------------------------- MODULE HclCli --------------------------------
(***************************************************************************)
(* The program hcl2json.  A file system is a sequence of files               *)
(*   [path: names of directories and file, s: text, utf8: BOOLEAN]           *)
(* and a sequence of (also empty) directories.  A call has                   *)
(*   glob: <<>> or <<pattern>>, keyed, pretty, go, simplify: BOOLEAN,        *)
(*   paths: texts, stdin: a file.                                            *)
(* The outcome is [ok, v, skipped]: what is printed, and which paths were    *)
(* left out with a warning; or that it fails and for which files it may.     *)
(***************************************************************************)
EXTENDS HclEval, HclText

CJ == INSTANCE HclJson

-----------------------------------------------------------------------------
(* Documents *)
NoCtx == [vars |-> <<>>, fns |-> <<>>, up |-> NoTree, own |-> NoTree]
Refused == [ok |-> FALSE, v |-> CJ!VNull]
Converted(f, simplify) ==
  LET r == ParseNoSpans("body", f.s, FALSE) IN
  IF ~f.utf8 \/ r.t # "ok" THEN Refused
  ELSE LET b == ROf(r.v)
           d == IF simplify THEN InNode(b, NoCtx).n ELSE b
           e == CJ!AsExpr(d)
       IN IF CJ!GoodKeys(e) THEN [ok |-> TRUE, v |-> CJ!EV(e)] ELSE Refused

-----------------------------------------------------------------------------
(* Paths and patterns *)
RECURSIVE Names(_, _, _, _), Joined(_, _, _)
Names(s, k, cur, acc) ==
  LET done == IF cur \in {<<>>, <<DOT>>} THEN acc ELSE Append(acc, cur) IN
  IF k > Len(s) THEN done
  ELSE IF s[k] = SLASH THEN Names(s, k + 1, <<>>, done) ELSE Names(s, k + 1, Append(cur, s[k]), acc)
NamesOf(s) == Names(s, 1, <<>>, <<>>)
Joined(ns, k, acc) == IF k > Len(ns) THEN acc ELSE Joined(ns, k + 1, acc \o (IF k = 1 THEN <<>> ELSE <<SLASH>>) \o ns[k])

Prefixed(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsDir(fs, p) == \/ p = <<>>
                \/ \E k \in 1..Len(fs.files) : Len(p) < Len(fs.files[k].path) /\ Prefixed(p, fs.files[k].path)
                \/ \E k \in 1..Len(fs.dirs) : Prefixed(p, fs.dirs[k])
FilesAt(fs, p) == {k \in 1..Len(fs.files) : fs.files[k].path = p}

(* * and ? stand for characters of one name, ** for any number of names. *)
RECURSIVE NameMatches(_, _, _, _), Matches(_, _, _, _)
NameMatches(g, i0, s, j) ==
  IF i0 > Len(g) THEN j > Len(s)
  ELSE IF g[i0] = STAR THEN NameMatches(g, i0 + 1, s, j) \/ (j <= Len(s) /\ NameMatches(g, i0, s, j + 1))
  ELSE j <= Len(s) /\ (g[i0] = QUEST \/ g[i0] = s[j]) /\ NameMatches(g, i0 + 1, s, j + 1)
Matches(gs, i0, ns, j) ==
  IF i0 > Len(gs) THEN j > Len(ns)
  ELSE IF gs[i0] = <<STAR, STAR>>
       THEN (i0 < Len(gs) /\ Matches(gs, i0 + 1, ns, j)) \/ (j <= Len(ns) /\ (i0 = Len(gs) \/ Matches(gs, i0, ns, j + 1)))
  ELSE j <= Len(ns) /\ NameMatches(gs[i0], 1, ns[j], 1) /\ Matches(gs, i0 + 1, ns, j + 1)
BadGlob(g) == \E k \in 1..Len(g) : g[k] = LBRK /\ \A m \in k..Len(g) : g[m] # RBRK

(* the order of names: that of their bytes, which is that of their characters *)
RECURSIVE Before(_, _, _), PathBefore(_, _, _), InsertPath(_, _, _), SortPaths(_, _, _)
Before(a, b, k) ==
  IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
  ELSE a[k] < b[k] \/ (a[k] = b[k] /\ Before(a, b, k + 1))
PathBefore(a, b, k) ==
  IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
  ELSE IF a[k] = b[k] THEN PathBefore(a, b, k + 1) ELSE Before(a[k], b[k], 1)
InsertPath(ps, p, k) ==
  IF k > Len(ps) THEN Append(ps, p)
  ELSE IF PathBefore(p, ps[k], 1) THEN SubSeq(ps, 1, k - 1) \o <<p>> \o SubSeq(ps, k, Len(ps))
  ELSE InsertPath(ps, p, k + 1)
SortPaths(ps, k, acc) == IF k > Len(ps) THEN acc ELSE SortPaths(ps, k + 1, InsertPath(acc, ps[k], 1))

(* what is below a directory and matches, as the texts of the paths *)
Under0(fs, dir, glob) ==
  LET d == NamesOf(dir)
      base == IF dir[Len(dir)] = SLASH THEN dir ELSE Append(dir, SLASH)
      below == SelectSeq(fs.files, LAMBDA f : Len(d) < Len(f.path) /\ Prefixed(d, f.path))
      rels == SelectSeq([k \in 1..Len(below) |-> SubSeq(below[k].path, Len(d) + 1, Len(below[k].path))],
                        LAMBDA r : Matches(NamesOf(glob), 1, r, 1))
      sorted == SortPaths(rels, 1, <<>>)
  IN [k \in 1..Len(sorted) |-> base \o Joined(sorted[k], 1, <<>>)]

-----------------------------------------------------------------------------
(* Calls *)
Failed(which) == [ok |-> FALSE, v |-> CJ!VNull, skipped |-> <<>>, which |-> which]
Done(v, skipped) == [ok |-> TRUE, v |-> v, skipped |-> skipped, which |-> <<>>]

ConvertedAt(fs, p, simplify) ==
  LET at == FilesAt(fs, NamesOf(p)) IN
  IF at = {} THEN Refused ELSE Converted(fs.files[CHOOSE k \in at : TRUE], simplify)

RECURSIVE AllPaths(_, _, _, _), Keyed(_, _, _)
AllPaths(fs, a, k, acc) ==
  IF k > Len(a.paths) THEN acc
  ELSE AllPaths(fs, a, k + 1, acc \o (IF IsDir(fs, NamesOf(a.paths[k])) THEN Under0(fs, a.paths[k], a.glob[1]) ELSE <<a.paths[k]>>))
Keyed(ps, k, acc) == IF k > Len(ps) THEN acc ELSE Keyed(ps, k + 1, CJ!PutPair(acc, ps[k][1], ps[k][2]))

Bulk(fs, a) ==
  IF (\E k \in 1..Len(a.paths) : IsDir(fs, NamesOf(a.paths[k]))) /\ (a.glob = <<>> \/ BadGlob(a.glob[1])) THEN Failed(<<>>)
  ELSE LET all == AllPaths(fs, a, 1, <<>>)
           rs == [k \in 1..Len(all) |-> ConvertedAt(fs, all[k], a.simplify)]
           ks == [k \in 1..Len(all) |-> k]
           good == SelectSeq(ks, LAMBDA k : rs[k].ok)
           bad == SelectSeq(ks, LAMBDA k : ~rs[k].ok)
           named == [k \in 1..Len(bad) |-> all[bad[k]]]
           vs == [k \in 1..Len(good) |-> <<all[good[k]], rs[good[k]].v>>]
       IN IF bad # <<>> /\ ~a.go THEN Failed(named)
          ELSE Done(IF a.keyed THEN CJ!VObj(Keyed(vs, 1, <<>>)) ELSE CJ!VArr([k \in 1..Len(vs) |-> vs[k][2]]), named)

Single(r) == IF r.ok THEN Done(r.v, <<>>) ELSE Failed(<<>>)
Outcome(fs, a) ==
  IF a.paths = <<>> \/ a.paths = << <<MINUS>> >> THEN Single(Converted(a.stdin, a.simplify))
  ELSE IF Len(a.paths) = 1 /\ ~IsDir(fs, NamesOf(a.paths[1])) THEN Single(ConvertedAt(fs, a.paths[1], a.simplify))
  ELSE Bulk(fs, a)

-----------------------------------------------------------------------------
(* JSON text; numbers are listed apart. *)
TheNumber == 1114112
JString(s) == <<QUOTE>> \o EscL(s, 1, <<>>) \o <<QUOTE>>
NewLine(pretty, d) == IF pretty THEN <<NL>> \o Spaces(2 * d) ELSE <<>>
RECURSIVE JText(_, _, _), JList(_, _, _, _, _), NumbersOf(_, _, _)
JText(v, pretty, d) ==
  CASE v.t = "null" -> T_null
    [] v.t = "bool" -> IF v.v THEN T_true ELSE T_false
    [] v.t = "num" -> <<TheNumber>>
    [] v.t = "str" -> JString(v.v)
    [] v.t = "arr" -> IF v.v = <<>> THEN <<LBRK, RBRK>>
                      ELSE <<LBRK>> \o JList(v, 1, pretty, d + 1, <<>>) \o NewLine(pretty, d) \o <<RBRK>>
    [] v.t = "obj" -> IF v.v = <<>> THEN <<LBRC, RBRC>>
                      ELSE <<LBRC>> \o JList(v, 1, pretty, d + 1, <<>>) \o NewLine(pretty, d) \o <<RBRC>>
JList(v, k, pretty, d, acc) ==
  IF k > Len(v.v) THEN acc
  ELSE JList(v, k + 1, pretty, d, acc \o (IF k = 1 THEN <<>> ELSE <<COMMA>>) \o NewLine(pretty, d)
         \o (IF v.t = "arr" THEN JText(v.v[k], pretty, d)
             ELSE JString(v.v[k][1]) \o <<COLON>> \o (IF pretty THEN <<SPC>> ELSE <<>>) \o JText(v.v[k][2], pretty, d)))
NumbersOf(v, k, acc) ==
  CASE v.t = "num" -> Append(acc, v.v)
    [] v.t \in {"arr", "obj"} -> IF k > Len(v.v) THEN acc
         ELSE NumbersOf(v, k + 1, NumbersOf(IF v.t = "arr" THEN v.v[k] ELSE v.v[k][2], 1, acc))
    [] OTHER -> acc
=============================================================================
