-------------------------------- MODULE Gps --------------------------------
(* What is known about the position and whether it has been asked for.        *)
EXTENDS Feed
InitGps == [has |-> FALSE, fix |-> FALSE, pos |-> <<>>, need |-> FALSE]
Avail(g) == g.has /\ g.fix
GReset(g) == [g EXCEPT !.has = FALSE, !.fix = FALSE, !.need = FALSE]
GWithdraw(g) == [g EXCEPT !.need = FALSE]
GSet(g, b, withFix) == [g EXCEPT !.has = TRUE, !.pos = b, !.fix = @ \/ withFix]
GFix(g, fx) == [g EXCEPT !.fix = fx]
\* an update answers an open request if it can
Answers(g) == g.need /\ Avail(g)
GDefer(g) == [g EXCEPT !.need = TRUE]
=============================================================================
