------------------------------- MODULE MCRcG --------------------------------
(* The reader of Rc.tla with the real lengths, reduced to its control state,   *)
(* and the boundaries of reads: for replay on the real reader.                 *)
EXTENDS Naturals, Sequences, TLC
PL(t) == CASE t = 49 -> 2 [] t = 50 -> 7 [] OTHER -> 14
Rc == INSTANCE Rc WITH HdrLen <- 7, PayLen <- PL
VARIABLES m, ty, got, cut, via
vars == <<m, ty, got, cut, via>>
A == {26, 49, 50, 51, 52, 0}
P == [Rc!RcInit EXCEPT !.m = m, !.ty = ty, !.d = [i \in 1..got |-> 0], !.need = IF ty = 0 THEN 0 ELSE 7 + PL(ty)]
Keep(x) == x \in {"body", "esc"}
Init == m = "sync" /\ ty = 0 /\ got = 0 /\ cut = TRUE /\ via = <<>>
Byte(b) == LET q == Rc!RcStep(P, b) IN
  /\ m' = q.m /\ ty' = (IF Keep(q.m) THEN q.ty ELSE 0) /\ got' = (IF Keep(q.m) THEN Len(q.d) ELSE 0)
  /\ \E c \in BOOLEAN : cut' = c /\ via' = <<b, IF c THEN 1 ELSE 0>>
Fail == cut /\ m' = "sync" /\ ty' = 0 /\ got' = 0 /\ cut' = TRUE /\ via' = <<>>
Next == Fail \/ \E b \in A : Byte(b)
Spec == Init /\ [][Next]_vars
=============================================================================
