-------------------------------- MODULE MCRc --------------------------------
(* Consequences of Rc.tla for every stream up to a bound, over an alphabet     *)
(* with the synchronization byte, two types and an ordinary byte; short        *)
(* frames.                                                                      *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, H
PL(t) == IF t = 49 THEN 1 ELSE 2
Rc == INSTANCE Rc WITH HdrLen <- H, PayLen <- PL
A == {26, 49, 50, 7}
VARIABLES s, p, done
vars == <<s, p, done>>
Init == s = <<>> /\ p = Rc!RcInit /\ done = <<>>
Next == Len(s) < N /\ \E b \in A :
          /\ s' = Append(s, b)
          /\ LET q == Rc!RcStep(p, b) IN
             /\ p' = [q EXCEPT !.out = <<>>]
             /\ done' = IF q.out = <<>> THEN done ELSE Append(done, [f |-> q.out[1], at |-> Len(s) + 1])
Spec == Init /\ [][Next]_vars
\* the short frames which may follow
F == {Rc!RcWire(t, d) : t \in {49}, d \in [1..(H + 1) -> {26, 49, 7}]}
W(f) == Rc!RcParse(p, f).out
Last(x) == x[Len(x)]
Inv ==
  \* a delivered frame is exactly a stretch of the stream, well formed, behind the one before
  /\ \A i \in 1..Len(done) :
       LET x == done[i] r == x.f.raw IN
       /\ r = Rc!RcWire(x.f.ty, x.f.d) /\ Len(x.f.d) = H + PL(x.f.ty)
       /\ SubSeq(s, x.at - Len(r) + 1, x.at) = r
       /\ x.at - Len(r) >= (IF i = 1 THEN 0 ELSE done[i - 1].at)
  \* splitting the stream anywhere does not matter
  /\ \A k \in 0..Len(s) : LET a == Rc!RcParse(Rc!RcInit, SubSeq(s, 1, k)) IN
       Rc!RcParse(a, SubSeq(s, k + 1, Len(s))).out = [i \in 1..Len(done) |-> done[i].f]
  \* whatever came before: of two well-formed frames the second one is delivered, and the first
  \* one too unless the stream before it ends within an escape sequence
  /\ \A f \in F :
       LET a == Rc!RcParse(p, f) b == Rc!RcParse(p, f \o f) IN
       /\ b.out # <<>> /\ Last(b.out).raw = f /\ b.m = "sync"
       /\ p.m \in {"sync", "hunt", "body"} => a.out # <<>> /\ Last(a.out).raw = f
  \* behind a complete frame every sequence of frames is delivered completely
  /\ p.m = "sync" => \A f, g \in F : LET o == W(f \o g) IN Len(o) = 2 /\ o[1].raw = f /\ o[2].raw = g
=============================================================================
