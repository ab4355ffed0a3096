-------------------------------- MODULE Pkg ---------------------------------
(* The package: the questionnaire, what is written from it, and its removal.      *)
(* The questionnaire works on the answers v (bytes, by question) and on which     *)
(* questions were seen. Def: the default answers; Ok(q, b): b is a valid answer   *)
(* to q; Rank: how important q is (1: critical, 2: high).                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Q, Def, Ok(_, _), Rank(_)
Invalid(v) == {q \in Q : ~Ok(q, v[q])}
\* thr: how important a question has to be for the administrator; ni: nobody is there to answer
Askable(qs, thr, ni) == IF ni THEN {} ELSE {q \in qs : Rank(q) <= thr}
\* the first screen: what was not seen; or everything, when reconfiguring
First(seen, thr, ni, reshow) == Askable(IF reshow THEN Q ELSE Q \ seen, thr, ni)
\* the following screens: what is not valid
Again(v, thr, ni) == Askable(Invalid(v), thr, ni)
\* answers are left alone unless they are asked for; what is not valid may be set back
Kept(v, w, qs) == \A q \in Q \ qs : w[q] = v[q] \/ (~Ok(q, v[q]) /\ w[q] = Def[q])
\* it ends as soon as nothing is left which can be asked for, and not before
Done(v, thr, ni) == Again(v, thr, ni) = {}
=============================================================================
