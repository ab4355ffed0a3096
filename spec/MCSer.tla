------------------------------- MODULE MCSer --------------------------------
(* The serial number over a history of lookups, failures, changes of the world,   *)
(* configurations, saves and restarts.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSteps
S == INSTANCE SerEth
Macs == {<<1, 2, 131, 4, 5, 6>>, <<1, 2, 3, 4, 5, 6>>, <<9, 9, 255, 255, 255, 255>>}
Conf == <<200, 0, 0, 1>>
Zero == <<0, 0, 0, 0>>
Worlds == [mac : Macs, sock : BOOLEAN, sys : BOOLEAN, eth : BOOLEAN]
VARIABLES given, no, file, w, seen, last, n
vars == <<given, no, file, w, seen, last, n>>
\* seen: the numbers told since the configuration was loaded; last: the last result, in which world
Init == given = FALSE /\ no = Zero /\ file = [given |-> FALSE, no |-> Zero] /\ w \in Worlds /\ seen = {} /\ n = 0
        /\ last = [ok |-> FALSE, no |-> Zero, w |-> w, had |-> FALSE]
Step(c) == n < MaxSteps /\ n' = n + 1 /\ c
World == \E x \in Worlds : w' = x /\ UNCHANGED <<given, no, file, seen, last>>
Get == \E r \in S!Get(given, no, w) :
         /\ given' = r.ok /\ no' = r.no /\ seen' = IF r.ok THEN seen \cup {r.no} ELSE seen
         /\ last' = [ok |-> r.ok, no |-> r.no, w |-> w, had |-> given]
         /\ UNCHANGED <<file, w>>
Save == file' = [given |-> given, no |-> no] /\ UNCHANGED <<given, no, w, seen, last>>
Restart == given' = file.given /\ no' = (IF file.given THEN file.no ELSE Zero) /\ seen' = (IF file.given THEN {file.no} ELSE {}) /\ UNCHANGED <<file, w, last>>
Config == given' = TRUE /\ no' = Conf /\ seen' = {Conf} /\ UNCHANGED <<file, w, last>>
Next == Step(World \/ Get \/ Save \/ Restart \/ Config)
Spec == Init /\ [][Next]_vars
\* one number from then on, also over a restart with what was saved
Stable == Cardinality(seen) <= 1
\* never an arbitrary number: configured, or the lower 31 bits of an address, which fit a signed integer
Right == last.ok => last.no = Conf \/ (\E m \in Macs : last.no = S!Lower31(m))
Fits == last.ok /\ last.no # Conf => last.no[1] < 128
\* a first lookup tells the address of the world as it is
Fresh == last.ok /\ ~last.had => last.no = S!Lower31(last.w.mac)
\* without an address there is no number
None == ~last.had /\ ~last.w.sock /\ ~last.w.sys => ~last.ok
=============================================================================
