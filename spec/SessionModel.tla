----------------------------- MODULE SessionModel -----------------------------
(***************************************************************************)
(* Serializers of this crate hand parts of documents to each other whole,    *)
(* and write them as plain data for all other serializers.  Which of the two *)
(* a part has to do is not known from its serializer but from a flag, which  *)
(* is set while a serializer of documents or expressions runs and put back   *)
(* when it returns, fails or panics.  This is the machine of the calls: the  *)
(* stack of serializers which run, what they wrote, and the flag.            *)
(*                                                                           *)
(* Every part is written for the innermost serializer, whatever ran before,  *)
(* runs around it or failed.  Serializers of other libraries do not know the *)
(* flag: with Foreign they are also called by implementations which run for  *)
(* a serializer of this crate, where this does not hold (a known finding).   *)
(* With GEN all histories are printed, to be replayed by the code.           *)
(***************************************************************************)
EXTENDS HclSerde, IOUtils, Json, TLC

CONSTANTS MaxActs, Foreign

VARIABLES stack, flag, calls, acts, right
vars == <<stack, flag, calls, acts, right>>

Kinds == {"hcl", "expr", "value", "json"}
Internal(w) == w \in {"hcl", "expr"}
Top == stack[Len(stack)]
Var0 == [d |-> "expr", e |-> [k |-> "var", sp |-> NoSpan, pre |-> <<>>, suf |-> <<>>, id |-> Cp("v")]]
Int0 == [d |-> "int", val |-> [neg |-> FALSE, digs |-> <<7>>, x |-> 1]]
Content(f) == [d |-> "struct", ps |-> << <<Cp("a"), [d |-> "seq", xs |-> f.xs]>> >>]
Running(n) == n > 0 /\ stack[n].over = ""

Init == stack = <<>> /\ flag = FALSE /\ calls = <<>> /\ acts = 0 /\ right = TRUE
Acts == acts < MaxActs /\ acts' = acts + 1
(* A serializer is called, by the program or while another one runs. *)
Call(w, t) ==
  /\ Acts /\ (stack = <<>> \/ Running(Len(stack)))
  /\ t => stack # <<>>
  /\ w = "json" /\ ~Foreign => ~flag
  /\ stack' = Append(stack, [w |-> w, t |-> t, old |-> flag, xs |-> <<>>, over |-> ""])
  /\ flag' = IF w = "json" THEN flag ELSE Internal(w)
  /\ UNCHANGED <<calls, right>>
Write(x, over) ==
  /\ Acts /\ Running(Len(stack))
  /\ stack' = [stack EXCEPT ![Len(stack)].xs = Append(@, x), ![Len(stack)].over = over]
  /\ UNCHANGED <<flag, calls>>
(* A part of a document: whole, or as plain data. *)
Node == Write(Var0, "") /\ right' = (right /\ (flag = Internal(Top.w)))
PlainNow == Write(Int0, "") /\ UNCHANGED right
FailNow == Write([d |-> "fail"], "fail") /\ UNCHANGED right
PanicNow == Write([d |-> "panic"], "panic") /\ UNCHANGED right
(* A serializer is done, or stops because of a failure or panic. *)
Return ==
  /\ stack # <<>> /\ acts' = acts
  /\ LET f == Top
         rest == SubSeq(stack, 1, Len(stack) - 1)
         n == Len(rest)
         x == [d |-> IF f.t THEN "try" ELSE "via", w |-> f.w, v |-> Content(f)] IN
     /\ flag' = IF f.w = "json" THEN flag ELSE f.old
     /\ IF rest = <<>>
        THEN stack' = <<>> /\ calls' = Append(calls, [op |-> IF f.w = "hcl" THEN "string" ELSE f.w, x |-> Content(f)])
        ELSE /\ stack' = [rest EXCEPT ![n].xs = Append(@, x), ![n].over = IF f.t THEN "" ELSE f.over]
             /\ calls' = calls
     (* what is returned by a serializer of expressions is a part of a document itself *)
     /\ right' = (right /\ (f.w = "expr" /\ f.over = "" /\ rest # <<>> => flag' = Internal(rest[n].w)))
Next == \/ \E w \in Kinds : \E t \in BOOLEAN : Call(w, t)
        \/ Node \/ PlainNow \/ FailNow \/ PanicNow \/ Return
Spec == Init /\ [][Next]_vars

(* the flag the stack calls for *)
RECURSIVE Wanted(_)
Wanted(n) == IF n = 0 THEN FALSE ELSE IF stack[n].w = "json" THEN Wanted(n - 1) ELSE Internal(stack[n].w)
FlagOk == flag = Wanted(Len(stack))
NodesOk == right
Between == stack = <<>> => ~flag
(* A call has an outcome exactly if nothing failed in it which nobody handled. *)
Outcome(c) ==
  CASE c.op = "string" -> SerDocR(c.x) # NoRes
    [] c.op = "expr" -> SerER(c.x) # NoRes
    [] OTHER -> SerVR(c.x) # NoRes
RECURSIVE Fails(_)
Fails(x) ==
  CASE x.d \in {"fail", "panic"} -> TRUE
    [] x.d = "via" -> Fails(x.v)
    [] x.d = "seq" -> \E k \in 1..Len(x.xs) : Fails(x.xs[k])
    [] x.d = "struct" -> \E k \in 1..Len(x.ps) : Fails(x.ps[k][2])
    [] OTHER -> FALSE
Outcomes == stack = <<>> /\ calls # <<>> => LET c == calls[Len(calls)] IN Outcome(c) = ~Fails(c.x)
Gen == "GEN" \notin DOMAIN IOEnv \/ stack # <<>> \/ acts # MaxActs \/ PrintT(<<"GEN", ToJson([calls |-> calls])>>)
=============================================================================
