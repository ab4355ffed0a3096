------------------------------- MODULE Filter -------------------------------
(* The frame filter and what it counts.                                       *)
EXTENDS Feed, FiniteSets
FInit(sync, ext) == [sync |-> sync, ext |-> ext, is |-> FALSE]
CInit == [byType |-> [t \in 49..52 |-> 0], byDf |-> [d \in 0..31 |-> 0], filtered |-> 0, modeS |-> 0, unsync |-> 0]
Df(b0) == b0 \div 8
CFrame(c, f, ft, b0) ==
  LET seen == f.is \/ ~f.sync \* reaches the second filter
      isS == ft \in {50, 51}
      pass == Passes(f, ft, b0)
  IN [byType |-> [c.byType EXCEPT ![ft] = @ + 1],
      byDf |-> IF seen /\ isS THEN [c.byDf EXCEPT ![Df(b0)] = @ + 1] ELSE c.byDf,
      unsync |-> c.unsync + (IF f.is THEN 0 ELSE 1),
      filtered |-> c.filtered + (IF pass THEN 0 ELSE 1),
      modeS |-> c.modeS + (IF seen /\ isS /\ ~pass THEN 1 ELSE 0)]
=============================================================================
