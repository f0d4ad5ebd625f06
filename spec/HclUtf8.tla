------------------------------- MODULE HclUtf8 -------------------------------
(***************************************************************************)
(* Bytes and texts: UTF-8.  Decode gives <<text>>, or <<>> for bytes which   *)
(* are no text: stray or missing continuation bytes, encodings which are     *)
(* longer than necessary, surrogates, and numbers beyond Unicode.            *)
(***************************************************************************)
EXTENDS HclChars

EncodeChar(x) ==
  IF x < 128 THEN <<x>>
  ELSE IF x < 2048 THEN <<192 + (x \div 64), 128 + (x % 64)>>
  ELSE IF x < 65536 THEN <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
  ELSE <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(s, k, acc) == IF k > Len(s) THEN acc ELSE EncodeFrom(s, k + 1, acc \o EncodeChar(s[k]))
EncodeText(s) == EncodeFrom(s, 1, <<>>)

Trail(b) == b >= 128 /\ b <= 191
(* the number of bytes the first byte asks for *)
Width(b) ==
  IF b < 128 THEN 1
  ELSE IF b >= 194 /\ b <= 223 THEN 2
  ELSE IF b >= 224 /\ b <= 239 THEN 3
  ELSE IF b >= 240 /\ b <= 244 THEN 4
  ELSE 0
(* the second byte decides about long forms, surrogates and what is beyond *)
Second(a, b) ==
  /\ Trail(b)
  /\ (a = 224) => b >= 160
  /\ (a = 237) => b <= 159
  /\ (a = 240) => b >= 144
  /\ (a = 244) => b <= 143
CharAt(bs, k, w) ==
  CASE w = 1 -> bs[k]
    [] w = 2 -> (bs[k] - 192) * 64 + (bs[k + 1] - 128)
    [] w = 3 -> (bs[k] - 224) * 4096 + (bs[k + 1] - 128) * 64 + (bs[k + 2] - 128)
    [] w = 4 -> (bs[k] - 240) * 262144 + (bs[k + 1] - 128) * 4096 + (bs[k + 2] - 128) * 64 + (bs[k + 3] - 128)
WellFormed(bs, k, w) ==
  /\ w > 0 /\ k + w - 1 <= Len(bs)
  /\ w > 1 => Second(bs[k], bs[k + 1])
  /\ \A j \in (k + 2)..(k + w - 1) : Trail(bs[j])
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(bs, k, acc) ==
  IF k > Len(bs) THEN <<acc>>
  ELSE LET w == Width(bs[k]) IN
       IF WellFormed(bs, k, w) THEN DecodeFrom(bs, k + w, Append(acc, CharAt(bs, k, w))) ELSE <<>>
Decode(bs) == DecodeFrom(bs, 1, <<>>)
=============================================================================
