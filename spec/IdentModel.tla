------------------------------- MODULE IdentModel -------------------------------
(***************************************************************************)
(* All texts over characters of every kind that matters to identifiers, and   *)
(* the words with a meaning of their own.  A text is read as a name exactly   *)
(* if it is an identifier, in every place, unless it means something else     *)
(* there; every text has an identifier closest to it.                         *)
(* With GEN all texts are printed, to be given to the code.                   *)
(***************************************************************************)
EXTENDS HclIdent, IOUtils, Json, TLC

CONSTANTS MaxLen, Alphabet

VARIABLE text

ReservedWords == Words \cup {T_for, T_in, Cp("if"), Cp("else"), Cp("endif"), Cp("endfor")}
Init == text \in {<<>>} \cup ReservedWords
Next == Len(text) < MaxLen /\ \E x \in Alphabet : text' = Append(text, x)
Spec == Init /\ [][Next]_text

S(s) == Sanitized(s, LAMBDA k : IsIdStart(s[k]), LAMBDA k : IsIdCont(s[k]))
Id(s) == IsIdent(s, LAMBDA k : IsIdStart(s[k]), LAMBDA k : IsIdCont(s[k]))

Clean == Id(S(text)) /\ (Id(text) => S(text) = text) /\ S(S(text)) = S(text)
(* Sanitizing keeps what may be kept and adds at most one character. *)
Close == /\ Len(S(text)) \in {Len(text), Len(text) + 1}
         /\ \A k \in 1..Len(text) : IsIdCont(text[k]) => \E j \in {k, k + 1} : j <= Len(S(text)) /\ S(text)[j] = text[k]
ReadAsName == \A w \in Places : (Found(w, text) = <<text>>) = (Id(text) /\ text \notin Not(w))

Gen == "GEN" \notin DOMAIN IOEnv \/ PrintT(<<"GEN", ToJson([s |-> text])>>)
=============================================================================
