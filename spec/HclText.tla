------------------------------ MODULE HclText ------------------------------
(* Texts written as strings: Cp("a = 1") is the sequence of its code points.  *)
(* The backquote stands for a line break.                                     *)
EXTENDS Integers, Sequences

LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf == [ch \in {SubSeq(Printable, k, k) : k \in 1..Len(Printable)} |->
                  IF ch = "`" THEN 10 ELSE 31 + (CHOOSE k \in 1..Len(Printable) : SubSeq(Printable, k, k) = ch)]
Cp(str) == [k \in 1..Len(str) |-> CodeOf[SubSeq(str, k, k)]]
=============================================================================
