------------------------------- MODULE CliCheck -------------------------------
(* Observations [fs, call, ran: [code, out, nums, skipped, named]] of calls of *)
(* hcl2json: the exit code, the text it printed with its numbers apart, and    *)
(* the files it warned about or named as the reason for failing.               *)
EXTENDS HclCli, Obs

C == Cases[i]
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
SameElements(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
CliOk ==
  LET o == Outcome(C.fs, C.call) IN
  IF o.ok
  THEN /\ Why(<<"code", o>>, C.ran.code = 0)
       /\ Why(<<"out", JText(o.v, C.call.pretty, 0)>>, C.ran.out = JText(o.v, C.call.pretty, 0))
       /\ Why(<<"numbers", NumbersOf(o.v, 1, <<>>)>>, C.ran.nums = NumbersOf(o.v, 1, <<>>))
       /\ Why(<<"skipped", o.skipped>>, SameElements(C.ran.skipped, o.skipped))
  ELSE /\ Why(<<"fails", o>>, C.ran.code = 1 /\ C.ran.out = <<>> /\ C.ran.skipped = <<>>)
       /\ Why(<<"named", o>>, IF o.which = <<>> THEN C.ran.named = <<>>
                              ELSE Len(C.ran.named) = 1 /\ Count(o.which, C.ran.named[1]) > 0)
Inv == Report(CliOk)
=============================================================================
