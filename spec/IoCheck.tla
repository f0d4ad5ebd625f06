-------------------------------- MODULE IoCheck --------------------------------
(***************************************************************************)
(* Observations of streams.  k = "read": bytes which a reader delivers, and   *)
(* for each way to read [evs, o], what the reader was asked for and what came *)
(* of it: n > 0 bytes delivered, 0 interrupted, -1 failed, -2 told that this  *)
(* is the end.  k = "write": a document bd, a way to write it, the calls      *)
(* [off, r] with the bytes offered and what the writer did: r > 0 of them     *)
(* accepted, 0 interrupted, -1 failed, -2 would not take any.                 *)
(***************************************************************************)
EXTENDS HclJson, HclUtf8, Obs

C == Cases[i]
Err == <<>>
Parsed(bs) ==
  LET t == Decode(bs) IN
  IF t = <<>> THEN Err ELSE LET p == RParse("body", t[1]) IN IF p.t = "ok" THEN <<p.v>> ELSE Err
Meaning(what, bs) ==
  LET b == Parsed(bs) IN
  IF what = "body" \/ b = Err THEN b
  ELSE LET e == AsExpr(b[1]) IN IF GoodKeys(e) THEN <<EV(e)>> ELSE Err
Same(o, r) == IF r = Err THEN o.r = "err" ELSE o.r = "ok" /\ o.v = r[1]
RECURSIVE Given(_, _, _)
Given(evs, k, n) == IF k > Len(evs) THEN n ELSE Given(evs, k + 1, IF evs[k] > 0 THEN n + evs[k] ELSE n)
Sees(evs, x) == \E k \in 1..Len(evs) : evs[k] = x
(* a reader is asked until it is at its end or fails, and not after that *)
ReadOk(c) ==
  IF Sees(c.evs, -1) THEN c.o.r = "err" /\ ~Sees(SubSeq(c.evs, 1, Len(c.evs) - 1), -1) /\ c.evs[Len(c.evs)] = -1
  ELSE /\ Given(c.evs, 1, 0) = Len(C.bytes) /\ Sees(c.evs, -2)
       /\ LET m == Meaning(c.what, C.bytes) IN Why(<<"read", c.what, m>>, Same(c.o, m))
(* what a slice means *)
SliceOk(c) == LET m == Meaning(c.what, C.bytes) IN Why(<<"slice", c.what, m>>, Same(c.o, m))

(* a writer is offered what is left, and nothing after it failed *)
RECURSIVE Written(_, _, _)
Written(evs, k, left) ==
  IF k > Len(evs) THEN <<"end", left>>
  ELSE LET e == evs[k] IN
       IF ~IsPrefixAt(left, 1, e.off) \/ e.off = <<>> THEN <<"wrong", left>>
       ELSE IF e.r < 0 THEN (IF k = Len(evs) THEN <<"failed", left>> ELSE <<"wrong", left>>)
       ELSE Written(evs, k + 1, SubSeq(left, e.r + 1, Len(left)))
WriteOk ==
  LET all == EncodeText(FmtBody(C.bd, C.cfg))
      w == Written(C.evs, 1, all) IN
  Why(<<"write", C.way, all, w>>,
    CASE w[1] = "wrong" -> FALSE
      [] w[1] = "failed" -> C.o.r = "err"
      [] w[1] = "end" -> C.o.r = "ok" /\ w[2] = <<>>)
IoOk ==
  IF C.k = "read" THEN (\A k \in 1..Len(C.reads) : Why(<<"reader", k>>, ReadOk(C.reads[k])))
                       /\ (\A k \in 1..Len(C.slices) : SliceOk(C.slices[k]))
  ELSE WriteOk
Inv == Report(IoOk)
=============================================================================
