------------------------------ MODULE MCFilter ------------------------------
(* All settings, all frame types and downlink formats: what passes and how     *)
(* the counters relate; the state graph is replayed on the real filter.         *)
EXTENDS Filter, TLC
VARIABLES f, last
vars == <<f, last>>
B == BOOLEAN
Frames == (49..52) \X {0, 88, 135, 136, 143, 144, 151, 152, 255}
Init == f \in [sync : B, ext : B, is : {FALSE}] /\ last = <<>>
SetSync(x) == f' = [f EXCEPT !.sync = x] /\ last' = <<"sync", IF x THEN 1 ELSE 0>>
SetExt(x) == f' = [f EXCEPT !.ext = x] /\ last' = <<"ext", IF x THEN 1 ELSE 0>>
SetIs(x) == f' = [f EXCEPT !.is = x] /\ last' = <<"is", IF x THEN 1 ELSE 0>>
Reset == f' = [f EXCEPT !.is = FALSE] /\ last' = <<"reset", 0>>
Frame(t, b) == f' = f /\ last' = <<"frame", 256 * t + b>>
Next == Reset \/ (\E x \in B : SetSync(x) \/ SetExt(x) \/ SetIs(x)) \/ \E p \in Frames : Frame(p[1], p[2])
Spec == Init /\ [][Next]_vars
Inv == \A p \in Frames :
  LET c == CFrame(CInit, f, p[1], p[2]) ok == Passes(f, p[1], p[2]) df == p[2] \div 8 IN
  /\ ok <=> ((f.is \/ ~f.sync) /\ p[1] \in {50, 51} /\ (~f.ext \/ df = 17 \/ df = 18))
  /\ c.filtered = (IF ok THEN 0 ELSE 1) /\ c.modeS <= c.filtered /\ c.unsync = (IF f.is THEN 0 ELSE 1)
  /\ (ok => \E d \in 0..31 : c.byDf[d] = 1) /\ c.byType[p[1]] = 1
=============================================================================
