------------------------------- MODULE SessCheck -------------------------------
(***************************************************************************)
(* Observations [calls]: histories of calls [op, x, o] made one after        *)
(* another by one thread, with the data x and the outcome o of each.  What   *)
(* a call does depends on its data, and not on the calls before it, around   *)
(* it or inside it, whether these succeed, fail or panic.                    *)
(* The operations with a memory are those of one Serializer and one          *)
(* Formatter used throughout: "add" and "fadd" write a document behind what  *)
(* is in the buffer, as part of the same document; "take" and "ftake" do     *)
(* the same and then take the text out of the buffer.                        *)
(***************************************************************************)
EXTENDS HclSerde, Obs

C == Cases[i]
RECURSIVE Panics(_)
(* whether there is a panic nobody catches *)
Panics(x) ==
  CASE x.d = "panic" -> TRUE
    [] x.d \in {"some", "nstruct", "nvar", "block", "lblock", "via", "tag"} -> Panics(x.v)
    [] x.d \in {"seq", "tup", "tstruct", "tvar"} -> \E k \in 1..Len(x.xs) : Panics(x.xs[k])
    [] x.d \in {"map", "struct", "svar"} -> \E k \in 1..Len(x.ps) : Panics(x.ps[k][2])
    [] OTHER -> FALSE
Same(o, r, x) == IF r = NoRes THEN o.r = "err" \/ (o.r = "panic" /\ Panics(x)) ELSE o.r = "ok" /\ o.v = r[1]
TextOf(ss) == FmtBody(BodyN(ss, FALSE, FALSE), PlainCfg)
Done == [k |-> "done"]

(* [out, acc, facc]: the outcome of a call, and what the buffers hold after it *)
Step(call, acc, facc) ==
  LET x == call.x
      b == SerDocR(x)
      fresh == IF b = NoRes THEN NoRes ELSE Res(TextOf(b[1].ss))
      St(out, a, f) == [out |-> out, acc |-> a, facc |-> f] IN
  CASE call.op \in {"string", "vec", "writer"} -> St(fresh, acc, facc)
    [] call.op = "expr" -> St(SerER(x), acc, facc)
    [] call.op = "value" -> St(SerVR(x), acc, facc)
    [] call.op = "json" -> St(SerVR(x), acc, facc)
    [] call.op = "add" -> IF b = NoRes THEN St(NoRes, acc, facc) ELSE St(Res(Done), acc \o b[1].ss, facc)
    [] call.op = "take" -> IF b = NoRes THEN St(NoRes, acc, facc) ELSE St(Res(TextOf(acc \o b[1].ss)), <<>>, facc)
    [] call.op = "fadd" -> St(Res(Done), acc, facc \o x.bd.ss)
    [] call.op = "ftake" -> St(Res(TextOf(facc \o x.bd.ss)), acc, <<>>)
RECURSIVE Run(_, _, _)
Run(k, acc, facc) ==
  k > Len(C.calls) \/
  LET r == Step(C.calls[k], acc, facc) IN
  /\ Why(<<"call", k, C.calls[k].op, r.out>>, Same(C.calls[k].o, r.out, C.calls[k].x))
  /\ Run(k + 1, r.acc, r.facc)
SessOk == Run(1, <<>>, <<>>)
Inv == Report(SessOk)
=============================================================================
