--------------------------------- MODULE Obs ---------------------------------
(***************************************************************************)
(* Checking recorded observations.  The file named by the environment       *)
(* variable CASES has one JSON record per line, each an observation of the  *)
(* real code.  A behaviour walks through one chunk of them, so that TLC's    *)
(* workers share the work; a check module defines which observations the    *)
(* specification allows.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Chunk == 64

VARIABLE i

Init == i \in {k \in 1..N : k % Chunk = 1}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Spec == Init /\ [][Next]_i
(* for finding out why an observation is rejected *)
Why(x, b) == b \/ ("DEBUG" \in DOMAIN IOEnv /\ PrintT(<<"WHY", i, x>>) /\ FALSE)
(* for finding out which observation TLC gives up on *)
Mark(x) == "MARK" \in DOMAIN IOEnv => PrintT(<<x, i>>)
Report(ok) == Mark("AT") /\ (ok \/ PrintT(<<"FAIL", i>>)) /\ Mark("DONE")
=============================================================================
