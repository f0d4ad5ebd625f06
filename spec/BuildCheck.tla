------------------------------ MODULE BuildCheck ------------------------------
(* Observations [k, ...]: the nodes got by doing steps, in every way to end     *)
(* them ("steps"), and what the conversions of Rust values make of data: of     *)
(* expressions, values and syntax trees ("from"), and of labels and operators.  *)
EXTENDS HclBuild, Obs

C == Cases[i]
StepsOk == LET n == Built(C.steps) IN \A k \in 1..Len(C.got) : Why(<<"built", k, n>>, C.got[k] = n)
FromOk ==
  LET e == SerE(C.x)[1]
      v == SerV(C.x)[1]
      f == F(e) IN
  /\ Why("panic", C.fine)
  /\ \A k \in 1..Len(C.expr) : Why(<<"expr", k, e>>, C.expr[k] = e)
  /\ \A k \in 1..Len(C.val) : Why(<<"val", k, v>>, C.val[k] = v)
  /\ \A k \in 1..Len(C.edit) : Why(<<"edit", k, f>>, C.edit[k] = f)
LabelIs(n) ==
  /\ \A k \in 1..Len(C.got) : Why(<<"label", k, n>>, C.got[k] = n)
  /\ \A k \in 1..Len(C.txt) : Why(<<"text", k, C.s>>, C.txt[k] = C.s)
(* operators and heredoc introducers as texts: what each text means, if anything *)
BinTexts == {"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&&", "||"}
BinOf(s) == {t \in BinTexts : Cp(t) = s}
OpOk ==
  LET b == BinOf(C.s)
      bin == [k \in 1..(IF b = {} THEN 0 ELSE 1) |-> [s |-> <<C.s, C.s>>, p |-> Prec(CHOOSE t \in b : TRUE)]]
      un == IF C.s \in {Cp("!"), Cp("-")} THEN <<[s |-> <<C.s, C.s>>]>> ELSE <<>>
      hd == IF C.s \in {<<>>, Cp("-")} THEN <<[flush |-> C.s # <<>>, s |-> Cp("<<") \o C.s]>> ELSE <<>> IN
  /\ Why(<<"bin", bin>>, C.bin = bin)
  /\ Why(<<"un", un>>, C.un = un)
  /\ Why(<<"hd", hd>>, C.hd = hd)
BuildOk ==
  CASE C.k = "steps" -> StepsOk
    [] C.k = "from" -> FromOk
    [] C.k = "lstr" -> LabelIs(LabelS(C.s))
    [] C.k = "op" -> OpOk
    [] C.k = "lid" -> LabelIs(IdLabel(C.s))
Inv == Report(BuildOk)
=============================================================================
