------------------------------- MODULE DeCheck -------------------------------
(* Observations [k, in, sh, got] of reading a document, expression or value    *)
(* as data of a shape, by every way of doing it; rt if it was written from     *)
(* the data x of that shape.                                                   *)
EXTENDS HclDe, Obs

C == Cases[i]
Same(o, r) == IF r = NoRes THEN o.r = "err" ELSE o.r = "ok" /\ o.v = r[1]
Read == CASE C.k = "doc" -> DeDoc(C.sh, C.in)
          [] C.k = "expr" -> De(C.sh, C.in)
          [] C.k = "val" -> DeV(C.sh, C.in)
Rep == CASE C.k = "doc" -> RepDoc(C.sh, C.x) /\ SerDoc(C.x) # NoRes
         [] C.k = "expr" -> RepE(C.sh, C.x) /\ SerE(C.x) # NoRes
         [] C.k = "val" -> RepV(C.sh, C.x) /\ SerV(C.x) # NoRes
(* Nodes read as one of the types they are made of, [k |-> "own", ty, in]: only *)
(* the own type of a node takes it, and gets the same node.                    *)
OwnTypes == [fn |-> {"FuncCall"}, cond |-> {"Conditional"}, for |-> {"ForExpr"}, trv |-> {"Traversal"},
             un |-> {"Operation", "UnaryOp"}, bin |-> {"Operation", "BinaryOp"},
             tpl |-> {"TemplateExpr"}, hd |-> {"TemplateExpr", "Heredoc"}, var |-> {"Variable"},
             attr |-> {"Structure", "Attribute"}, block |-> {"Structure", "Block"}]
OwnRead(ty, x) ==
  IF ty \in {"Expression", "Body", "BlockLabel"} THEN Res(x)
  ELSE LET u == Unpar(x) IN IF u.k \in DOMAIN OwnTypes /\ ty \in OwnTypes[u.k] THEN Res(u) ELSE NoRes
OwnOk == LET r == OwnRead(C.ty, C.in) IN \A k \in 1..Len(C.got) : Why(<<C.ty, k, r>>, Same(C.got[k], r))
DeOk ==
  LET r == Read IN
  /\ \A k \in 1..Len(C.got) : Why(<<C.k, k, r>>, Same(C.got[k], r))
  /\ C.rt => (Rep => Why(<<"rt", r, Want(C.sh, C.x)>>, r = Res(Want(C.sh, C.x))))
(* [k |-> "any", x, val, expr, num]: data of another format *)
PlainOk == LET all(got, r, w) == \A k \in 1..Len(got) : Why(<<w, k, r, got[k]>>, Same(got[k], r)) IN
  all(C.val, PlainV(C.x), "val") /\ all(C.expr, PlainE(C.x), "expr") /\ all(C.num, PlainN(C.x), "num")
Inv == Report(CASE C.k = "own" -> OwnOk [] C.k = "any" -> PlainOk [] OTHER -> DeOk)
=============================================================================
