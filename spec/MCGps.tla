-------------------------------- MODULE MCGps -------------------------------
(* The algorithm of core/gps.c: updating threads that send with the lock      *)
(* held, a requesting thread that withdraws and requests again. Monitored: is  *)
(* a request open (want)?                                                      *)
EXTENDS Naturals, Integers, TLC, FiniteSets
CONSTANTS NU, MaxOp, LockedReset
VARIABLES has, fix, need, lock, pc, want, n, loc, sentU
vars == <<has, fix, need, lock, pc, want, n, loc, sentU>>
U == 1..NU
R == 0
Init == /\ has = FALSE /\ fix = FALSE /\ need = FALSE /\ lock = -1 /\ pc = [t \in U \cup {R} |-> "idle"]
        /\ want = FALSE /\ n = 0 /\ loc = FALSE /\ sentU = 0
Begin(u) == /\ pc[u] = "idle" /\ n < MaxOp /\ lock = -1
            /\ ((has' = TRUE /\ fix' \in {fix, TRUE}) \/ (has' = has /\ fix' \in BOOLEAN))
            /\ n' = n + 1
            /\ IF need /\ has' /\ fix'
               THEN lock' = u /\ pc' = [pc EXCEPT ![u] = "sending"] /\ Assert(want, "a position nobody asked for")
               ELSE UNCHANGED <<lock, pc>>
            /\ UNCHANGED <<need, want, loc, sentU>>
End(u) == /\ pc[u] = "sending" /\ \E ok \in BOOLEAN : need' = ~ok /\ want' = (want /\ ~ok)
          /\ pc' = [pc EXCEPT ![u] = "idle"] /\ lock' = -1 /\ sentU' = sentU
          /\ UNCHANGED <<has, fix, n, loc>>
Withdraw == /\ pc[R] = "idle" /\ n < MaxOp /\ n' = n + 1 /\ (LockedReset => lock = -1)
            /\ need' = FALSE /\ want' = FALSE /\ pc' = [pc EXCEPT ![R] = "ask"]
            /\ UNCHANGED <<has, fix, lock, loc, sentU>>
Ask == /\ pc[R] = "ask" /\ lock = -1 /\ need' = (IF has /\ fix THEN need ELSE TRUE)
       /\ want' = (IF has /\ fix THEN want ELSE TRUE) /\ pc' = [pc EXCEPT ![R] = "idle"]
       /\ UNCHANGED <<has, fix, lock, n, loc, sentU>>
Next == (\E u \in U : Begin(u) \/ End(u)) \/ Withdraw \/ Ask
Spec == Init /\ [][Next]_vars
Inv == need = want /\ (lock # -1 => need)
=============================================================================
