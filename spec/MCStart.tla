------------------------------ MODULE MCStart -------------------------------
(* All runs of a daemon of four parts: every configuration, every failure of      *)
(* every step.                                                                    *)
EXTENDS Naturals, FiniteSets, Sequences
Deps == [A |-> {"C"}, B |-> {"C", "E"}, C |-> {}, E |-> {}]
S == INSTANCE Start WITH D <- Deps, Roots <- {"A", "B"}, Need <- {"type", "serial"}
P == {"A", "B", "C", "E"}
VARIABLES s, good, fails, had
vars == <<s, good, fails, had>>
\* good: the configuration was; fails: something else failed; had: parts which ran
Init == s = S!First /\ good = FALSE /\ fails = FALSE /\ had = {}
Ok(ok) == fails' = (fails \/ ~ok) /\ good' = good
Same == UNCHANGED <<good, fails>>
Next ==
  /\ \/ s' \in S!Bad(s) /\ Same
     \/ \E en \in {P, P \ {"A"}, P \ {"B"}} : s' \in S!Good(s, en) /\ good' = TRUE /\ fails' = fails
     \/ \E k \in {"type", "serial"}, ok \in BOOLEAN : s' \in S!Done(s, k, ok) /\ Ok(ok)
     \/ \E c \in P, ok \in BOOLEAN : (s' \in S!Init(s, c, ok) \/ s' \in S!StartC(s, c, ok)) /\ Ok(ok)
     \/ \E c \in P, ok \in BOOLEAN : s' \in S!Stop(s, c, ok) /\ Same
     \/ \E c \in P : s' \in S!Destruct(s, c) /\ Same
     \/ s' \in (S!Wait(s) \cup S!Emerg(s) \cup S!Saved(s) \cup S!End(s)) /\ Same
  /\ had' = had \cup s'.started
StopOk(c) == s' \in S!Stop(s, c, TRUE) /\ Same /\ had' = had
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A c \in P : SF_vars(StopOk(c))
\* nothing runs out of a bad configuration, without what is needed, or before everything is initialized
OnlyGood == s.started # {} => good /\ ~("serial" \in s.need) /\ ~("type" \in s.need)
Order == /\ \A c \in s.started : Deps[c] \subseteq s.started \/ s.retry # {}
         /\ \A c \in s.inited : Deps[c] \subseteq s.inited
         /\ s.started \subseteq s.inited
         /\ s.ph = "up" /\ s.started # {} => s.inited = s.en
\* a process which has ended leaves nothing running
Nothing == s.ph \in {"dead", "over"} => s.started = {}
\* it ends in an emergency exactly when something failed
Why == (s.ph = "dead" => fails \/ ~good) /\ (s.ph = "over" => ~fails /\ good)
\* disabled parts never run
Disabled == good => had \subseteq s.en
Ends == <>(s.ph \in {"dead", "over"})
=============================================================================
