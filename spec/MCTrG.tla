------------------------------- MODULE MCTrG --------------------------------
(* The reader of Tr.tla with a buffer of a few bytes and the boundaries of      *)
(* reads, reduced to its control state: for replay on the real reader.          *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Mx
Tr == INSTANCE Tr WITH Max <- Mx
VARIABLES m, got, cut, via
vars == <<m, got, cut, via>>
A == {16, 3, 143, 0}
P == [m |-> m, buf |-> [i \in 1..got |-> 1], out |-> <<>>]
Init == m = "sync" /\ got = 0 /\ cut = TRUE /\ via = <<>>
Byte(b) == LET q == Tr!TrStep(P, b) IN
  /\ m' = q.m /\ got' = Len(q.buf)
  /\ \E c \in BOOLEAN : cut' = c /\ via' = <<b, IF c THEN 1 ELSE 0>>
Fail == cut /\ m' = "sync" /\ got' = 0 /\ cut' = TRUE /\ via' = <<>>
Next == Fail \/ \E b \in A : Byte(b)
Spec == Init /\ [][Next]_vars
=============================================================================
