------------------------------- MODULE CliModel -------------------------------
(***************************************************************************)
(* All calls of hcl2json with up to MaxPaths paths on a small file system    *)
(* with good, bad, empty and missing files and directories.  What is printed *)
(* follows the order of the paths, whatever is left out; options change only *)
(* what they are about.  With GEN all calls are printed, to be made.         *)
(***************************************************************************)
EXTENDS HclCli, IOUtils, Json, TLC

CONSTANTS MaxPaths

VARIABLE call

File(p, s) == [path |-> p, s |-> s, utf8 |-> TRUE]
Disk == [files |-> << File(<<Cp("a.hcl")>>, Cp("a = 1") \o <<NL>>),
                    File(<<Cp("b.hcl")>>, Cp("b \"x\" {") \o <<NL>> \o Cp("c = [1 + 1, \"$${q}\"]") \o <<NL>> \o Cp("}") \o <<NL>>),
                    File(<<Cp("d"), Cp("g.hcl")>>, Cp("g = \"${1 + x}\"") \o <<NL>>),
                    File(<<Cp("d"), Cp("e.tf")>>, Cp("tf = true") \o <<NL>>),
                    File(<<Cp("d"), Cp("e"), Cp("bad.hcl")>>, Cp("a = ")),
                    File(<<Cp("d"), Cp("e"), Cp("f.hcl")>>, <<>>) >>,
       dirs |-> << <<Cp("none")>> >>]
Pool == {Cp("a.hcl"), Cp("./b.hcl"), Cp("d"), Cp("d/e/"), Cp("d/e"), Cp("d/e/bad.hcl"), Cp("nope"), Cp("-"), Cp("none")}
Globs == {<<>>, <<Cp("*.hcl")>>, <<Cp("**/*.hcl")>>}

Init == call \in [glob : Globs, keyed : BOOLEAN, pretty : BOOLEAN, go : BOOLEAN, simplify : BOOLEAN,
                  paths : {<<>>}, stdin : {File(<<>>, Cp("i = 2 * 3") \o <<NL>>)}]
Next == Len(call.paths) < MaxPaths /\ \E p \in Pool : call' = [call EXCEPT !.paths = Append(@, p)]
Spec == Init /\ [][Next]_call

O == Outcome(Disk, call)
B(a) == Bulk(Disk, a)
DirsIn(a) == \E k \in 1..Len(a.paths) : IsDir(Disk, NamesOf(a.paths[k]))
IsBulk == Len(call.paths) > 1 \/ (Len(call.paths) = 1 /\ DirsIn(call))
Listed(o) == IF o.v.t = "arr" THEN o.v.v ELSE [k \in 1..Len(o.v.v) |-> o.v.v[k][2]]
Distinct == \A j, k \in 1..Len(AllPaths(Disk, call, 1, <<>>)) :
              AllPaths(Disk, call, 1, <<>>)[j] = AllPaths(Disk, call, 1, <<>>)[k] => j = k

(* What the paths give one by one is given, in their order. *)
RECURSIVE OneByOne(_, _)
OneByOne(k, acc) == IF k > Len(call.paths) THEN acc
                    ELSE OneByOne(k + 1, acc \o Listed(B([call EXCEPT !.paths = <<@[k]>>, !.keyed = FALSE, !.go = TRUE])))
InOrder == IsBulk /\ O.ok => Listed(Outcome(Disk, [call EXCEPT !.keyed = FALSE])) = OneByOne(1, <<>>)
(* Going on changes nothing unless something fails. *)
GoOn == IsBulk => LET g == B([call EXCEPT !.go = TRUE]) IN
                  /\ (O.ok /\ ~call.go) => g = O /\ O.skipped = <<>>
                  /\ g.ok = ~(DirsIn(call) /\ call.glob = <<>>)
KeyedSame == IsBulk /\ O.ok /\ Distinct => LET x == Outcome(Disk, [call EXCEPT !.keyed = ~@]) IN x.ok /\ Listed(x) = Listed(O)
(* Options which have no effect *)
Single1 == ~IsBulk => \A k \in BOOLEAN, g \in BOOLEAN, gl \in Globs :
             Outcome(Disk, [call EXCEPT !.keyed = k, !.go = g, !.glob = gl]) = O
GlobUnused == ~DirsIn(call) => \A gl \in Globs : Outcome(Disk, [call EXCEPT !.glob = gl]) = O
(* Pretty text is the compact one with whitespace. *)
Ink(s) == SelectSeq(s, LAMBDA x : x \notin {NL, SPC})
PrettySame == Ink(JText(O.v, TRUE, 0)) = Ink(JText(O.v, FALSE, 0))

Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([call |-> call, fs |-> Disk])>>)
=============================================================================
