-------------------------------- MODULE IoModel --------------------------------
(***************************************************************************)
(* A stream which delivers bytes in pieces, and one who collects them: all   *)
(* schedules of a stream which gives (or takes) a few bytes at a time, is    *)
(* interrupted, and may fail at any point.  Whatever the schedule, the one   *)
(* who collects has what was delivered, in order; at the end of the stream   *)
(* these are all bytes, and they are a text, or not, no matter where the     *)
(* pieces begin and end: a machine which decodes piece by piece ends where   *)
(* decoding the whole does.  With GEN the schedules are printed, to be       *)
(* replayed with the readers and writers of the code.                        *)
(***************************************************************************)
EXTENDS HclUtf8, IOUtils, Json, TLC

CONSTANTS Docs, Pieces, MaxInts, MaxLen, Letters, FewBytes

(* a = "é"; an unclosed string; names and characters cut off, and wrong ones *)
Doc1 == <<97, 61, 34, 195, 169, 34>>
Doc2 == <<195, 169, 61, 49, 10>>
Doc3 == <<97, 61, 34, 195>>
Doc4 == <<35, 237, 160, 128>>
Doc5 == <<97, 61, 34, 240, 159, 152, 128, 34>>
Doc6 == <<97, 32, 123, 125, 10>>
All == <<Doc1, Doc2, Doc3, Doc4, Doc5, Doc6>>

VARIABLES doc, pos, got, evs, ints, end, dec
vars == <<doc, pos, got, evs, ints, end, dec>>

(* The machine which decodes: [txt, part, bad], part is the beginning of a character. *)
Start == [txt |-> <<>>, part |-> <<>>, bad |-> FALSE]
Byte(m, b) ==
  IF m.bad THEN m
  ELSE LET p == Append(m.part, b)
           w == Width(p[1]) IN
       IF w = 0 \/ (Len(p) = 2 /\ ~Second(p[1], b)) \/ (Len(p) > 2 /\ ~Trail(b)) THEN [m EXCEPT !.bad = TRUE]
       ELSE IF Len(p) = w THEN [txt |-> Append(m.txt, CharAt(p, 1, w)), part |-> <<>>, bad |-> FALSE]
       ELSE [m EXCEPT !.part = p]
RECURSIVE Bytes(_, _, _)
Bytes(m, bs, k) == IF k > Len(bs) THEN m ELSE Bytes(Byte(m, bs[k]), bs, k + 1)
Decoded(m) == IF m.bad \/ m.part # <<>> THEN <<>> ELSE <<m.txt>>

(* documents, and all small byte strings of a few bytes *)
Small == UNION {[1..n -> FewBytes] : n \in 0..MaxLen}
Init == /\ doc \in {All[k] : k \in Docs} \cup Small
        /\ pos = 0 /\ got = <<>> /\ evs = <<>> /\ ints = 0 /\ end = "" /\ dec = Start
Running == end = ""
Give(n) ==
  /\ Running /\ pos < Len(doc) /\ pos + n <= Len(doc)
  /\ LET piece == SubSeq(doc, pos + 1, pos + n) IN
     got' = got \o piece /\ dec' = Bytes(dec, piece, 1)
  /\ pos' = pos + n /\ evs' = Append(evs, n)
  /\ UNCHANGED <<doc, ints, end>>
(* 0 is an interruption, -1 a failure *)
Interrupt == /\ Running /\ ints < MaxInts /\ ints' = ints + 1 /\ evs' = Append(evs, 0)
             /\ UNCHANGED <<doc, pos, got, end, dec>>
Stop == Running /\ evs' = Append(evs, -1) /\ end' = "fail" /\ UNCHANGED <<doc, pos, got, ints, dec>>
Eof == Running /\ pos = Len(doc) /\ end' = "eof" /\ UNCHANGED <<doc, pos, got, evs, ints, dec>>
Next == (\E n \in Pieces : Give(n)) \/ Interrupt \/ Stop \/ Eof
Spec == Init /\ [][Next]_vars

Delivered == got = SubSeq(doc, 1, pos)
Complete == end = "eof" => got = doc
SameText == Decoded(dec) = Decode(got)
(* There is one way to write a text in bytes, and all texts have one. *)
Canonical == LET t == Decode(got) IN t # <<>> => EncodeText(t[1]) = got
Encodes == \A s \in UNION {[1..n -> Letters] : n \in 0..2} : Decode(EncodeText(s)) = <<s>>
Once == evs = <<>> => Encodes
Gen == "GEN" \notin DOMAIN IOEnv \/ Running \/ doc \notin {All[k] : k \in Docs}
       \/ PrintT(<<"GEN", ToJson([bytes |-> doc, evs |-> evs])>>)
=============================================================================
