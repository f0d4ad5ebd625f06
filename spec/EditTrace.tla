------------------------------ MODULE EditTrace ------------------------------
(* Recorded histories of modifications [s, init, steps]: every step must be  *)
(* the step of the specification, be written the way the specification      *)
(* writes the tree, and that text must parse to the modified tree again.     *)
EXTENDS HclEdit, Obs

C == Cases[i]

(* Modifications which do not touch the decor between tokens, the layout of   *)
(* heredocs, or the operands of operations: the document stays well-formed.  *)
RECURSIVE HasHd(_), HasHdEl(_)
HasHdEl(x) == CASE x.k = "lit" -> FALSE
                [] x.k = "itp" -> HasHd(x.e)
                [] OTHER -> TRUE
Some(es) == \E k \in 1..Len(es) : HasHd(es[k])
HasHd(e) ==
  CASE e.k = "hd" -> TRUE
    [] e.k \in {"null", "bool", "num", "str", "var", "id"} -> FALSE
    [] e.k = "arr" -> Some(e.items)
    [] e.k = "fn" -> Some(e.args)
    [] e.k \in {"par", "un"} -> HasHd(e.e)
    [] e.k = "bin" -> HasHd(e.l) \/ HasHd(e.r)
    [] e.k = "cond" -> HasHd(e.ce) \/ HasHd(e.te) \/ HasHd(e.fe)
    [] e.k = "obj" -> \E k \in 1..Len(e.ents) : HasHd(e.ents[k].key) \/ HasHd(e.ents[k].val)
    [] e.k = "tpl" -> \E k \in 1..Len(e.els) : HasHdEl(e.els[k])
    [] OTHER -> TRUE \* numbers in front of dots as well
RECURSIVE HasHdS(_)
HasHdS(s) == IF s.k = "attr" THEN HasHd(s.val) ELSE \E k \in 1..Len(s.body.ss) : HasHdS(s.body.ss[k])
RECURSIVE NodeAt(_, _)
NodeAt(n, path) == IF path = <<>> THEN n ELSE NodeAt(Sub(n, path[1]), Tail(path))
Parent(n, path) == NodeAt(n, SubSeq(path, 1, Len(path) - 1))
Reads == {"get", "prefs", "aget", "ainfo", "oinfo", "isns", "hinfo", "xget", "xlen", "xone", "dnew", "hasa", "hasb", "geta", "getb", "attrs", "blocks", "intoa", "intob", "len", "hask", "haslab", "oget"}
Structural == {"pop", "rem", "rema", "remb", "clr", "omit", "lpush", "lpop", "blab"}
Safe(tree, op) ==
  LET o == op.o
      n == NodeAt(tree, op.path)
  IN CASE o \in Reads -> TRUE
       [] o \in Structural -> TRUE
       [] o \in {"push", "tpush", "ins", "tins"} -> ~HasHdS(op.st)
       [] o \in {"ext", "bfrom"} -> \A k \in 1..Len(op.sts) : ~HasHdS(op.sts[k])
       [] o \in {"vala", "allv"} -> ~HasHd(op.ex) \/ ~n.one
       [] o \in {"nval", "nfmt"} -> Parent(tree, op.path).k \notin {"un", "trv"}
       [] o \in {"apop", "arem", "aclr", "apush", "ains", "aext"} ->
            /\ n.k = "arr" \/ ~n.exp
            /\ o \in {"apush", "ains"} => ~HasHd(op.ex) /\ ~HasHd(n)
            /\ o = "aext" => ~Some(op.exs) /\ ~HasHd(n)
       [] o = "oext" -> ~HasHd(n) /\ \A k \in 1..Len(op.ents) : ~HasHd(op.ents[k].val)
       [] o \in {"orem", "oreme", "oclr"} -> TRUE
       [] o = "oins" -> ~HasHd(op.ent.val) /\ ~HasHd(n)
       [] o = "oval" -> ~HasHd(op.ex) /\ ~HasHd(n)
       [] o = "atc" -> ~HasHd(n)
       [] OTHER -> FALSE

RECURSIVE StepsOk(_, _, _)
StepsOk(tree, k, safe) ==
  IF k > Len(C.steps) THEN TRUE
  ELSE LET st == C.steps[k]
           r == Apply(tree, st.op.path, st.op)
           ok == safe /\ Safe(tree, st.op)
       IN /\ Why(<<k, st.op.o, "result">>, st.res = r.r)
          /\ Why(<<k, st.op.o, "tree">>, st.tree = r.n)
          /\ Why(<<k, st.op.o, "text">>, st.enc = Encode(r.n))
          /\ Why(<<k, st.op.o, "meaning">>, st.bare = BareOf(r.n))
          /\ ok => Why(<<k, st.op.o, "parsed again">>, st.re.k = "body" /\ st.re = st.bare)
          /\ StepsOk(r.n, k + 1, ok)
CaseOk == Why("init", C.enc = Encode(C.init)) /\ StepsOk(C.init, 1, C.enc = C.s)
Inv == Report(CaseOk)
=============================================================================
