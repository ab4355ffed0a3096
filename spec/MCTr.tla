-------------------------------- MODULE MCTr --------------------------------
(* Consequences of Tr.tla for every stream up to a bound.                       *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, Mx
Tr == INSTANCE Tr WITH Max <- Mx
A == {16, 3, 70}
VARIABLES s, p, done
vars == <<s, p, done>>
Init == s = <<>> /\ p = Tr!TrInit /\ done = <<>>
Next == Len(s) < N /\ \E b \in A :
          /\ s' = Append(s, b)
          /\ LET q == Tr!TrStep(p, b) IN
             /\ p' = [q EXCEPT !.out = <<>>]
             /\ done' = IF q.out = <<>> THEN done ELSE Append(done, [k |-> q.out[1], at |-> Len(s) + 1])
Spec == Init /\ [][Next]_vars
Ks == UNION {[1..n -> A] : n \in 1..(Mx - 1)}
F == {Tr!TrWire(k) : k \in {x \in Ks : x[1] = 70}}
Last(x) == x[Len(x)]
Pk(f) == CHOOSE k \in Ks : k[1] = 70 /\ Tr!TrWire(k) = f
Inv ==
  /\ \A i \in 1..Len(done) :
       LET x == done[i] r == Tr!TrWire(x.k) IN
       /\ Len(x.k) < Mx /\ x.k[1] \notin {16, 3}
       /\ SubSeq(s, x.at - Len(r) + 1, x.at) = r
       /\ x.at - Len(r) >= (IF i = 1 THEN 0 ELSE done[i - 1].at)
  /\ \A k \in 0..Len(s) : LET a == Tr!TrParse(Tr!TrInit, SubSeq(s, 1, k)) IN
       Tr!TrParse(a, SubSeq(s, k + 1, Len(s))).out = [i \in 1..Len(done) |-> done[i].k]
  /\ \A f \in F :
       LET a == Tr!TrParse(p, f) b == Tr!TrParse(p, f \o f) IN
       /\ b.out # <<>> /\ Last(b.out) = Pk(f) /\ b.m = "sync"
       /\ p.m \in {"sync", "hunt", "body"} => a.out # <<>> /\ Last(a.out) = Pk(f)
  /\ p.m = "sync" => \A f \in F : LET o == Tr!TrParse(p, f \o f).out IN o = <<Pk(f), Pk(f)>>
=============================================================================
