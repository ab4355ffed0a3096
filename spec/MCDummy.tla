------------------------------ MODULE MCDummy --------------------------------
(* The daemon with the simulated receiver: the source, the reader with the       *)
(* filter in front of the queue, and the user who starts and stops it. Told:     *)
(* the source announces synchronization first; without it TLC shows the history  *)
(* in which the synchronization filter lets nothing pass for ever.               *)
EXTENDS Naturals
CONSTANTS Told, Max
VARIABLES run, sync, first, is, gen, q
vars == <<run, sync, first, is, gen, q>>
Init == run = FALSE /\ sync \in BOOLEAN /\ first = TRUE /\ is = FALSE /\ gen = 0 /\ q = 0
Start == ~run /\ run' = TRUE /\ first' = Told /\ is' = FALSE /\ gen' = 0 /\ q' = 0 /\ UNCHANGED sync
Frame == /\ run /\ gen < Max /\ gen' = gen + 1 /\ first' = FALSE
         /\ is' = (is \/ first) /\ q' = IF ~first /\ (is \/ ~sync) THEN q + 1 ELSE q
         /\ UNCHANGED <<run, sync>>
Stop == run /\ run' = FALSE /\ UNCHANGED <<sync, first, is, gen, q>>
Next == Start \/ Frame \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Frame)
\* everything but the announcement is queued, whatever the filter
All == run => q + (IF gen > 0 THEN 1 ELSE 0) = gen
Flows == run ~> (~run \/ q = Max - 1)
=============================================================================
