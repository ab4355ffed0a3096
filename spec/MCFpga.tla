------------------------------- MODULE MCFpga --------------------------------
(* The programming algorithm against every behaviour of a device which is ready   *)
(* after some polls or never, fails at any byte, and completes after some polls   *)
(* or never. A poll takes one unit of time, a reset Reset units, a byte one bit.  *)
(* Checked against the device's view (Fpga.tla).                                  *)
EXTENDS Fpga
CONSTANTS NBytes, MaxPoll, Inverted
VARIABLES x, pc, us, polls, pos, last
vars == <<x, pc, us, polls, pos, last>>
\* the device: decided at the poll
File == [i \in 1..NBytes |-> 1]
Bs == Bits(File)
S(set) == CHOOSE y \in set : TRUE
Init == x = [First EXCEPT !.dclk = 0, !.nconf = 1] /\ pc = "try" /\ us = 1 /\ polls = 0 /\ pos = 0 /\ last = "-"
Try == /\ pc = "try"
       /\ IF x.a = Attempts THEN pc' = "ret0" /\ UNCHANGED <<x, us, polls, pos>>
          ELSE \E y \in Fall(x, 1) : \E z \in Rise(y, 1 + ResetUs) :
               x' = z /\ us' = 1 + ResetUs /\ polls' = 0 /\ pos' = 0 /\ pc' = "sync"
       /\ last' = "-"
\* the device answers the poll number polls of nstat
Sync(v) == /\ pc = "sync"
           /\ x' = S(Stat(x, v, us, Bs))
           /\ IF v = 1 THEN pc' = "byte" /\ polls' = 0 /\ us' = us
              ELSE IF polls = MaxPoll - 1 THEN pc' = "try" /\ polls' = 0 /\ us' = us + 1
              ELSE pc' = "sync" /\ polls' = polls + 1 /\ us' = us + 1
           /\ last' = IF v = 1 THEN "r" ELSE "n"
           /\ UNCHANGED <<pos>>
RECURSIVE Send(_, _)
Send(y, k) == IF k = 0 THEN y ELSE Send(S(Clock(S(Clock(S(Data(y, Bs[y.n + 1])), 1, Bs)), 0, Bs)), k - 1)
Byte(v) == /\ pc = "byte"
           /\ LET y == Send(x, 8) IN x' = S(Stat(y, v, us, Bs))
           /\ pos' = pos + 1
           /\ pc' = IF v = 0 THEN "try" ELSE IF pos + 1 = NBytes THEN "conf" ELSE "byte"
           /\ last' = IF v = 1 THEN "b" ELSE "e"
           /\ UNCHANGED <<us, polls>>
Conf1(v) == /\ pc = "conf"
            /\ x' = S(Conf(x, v, us, Bs))
            /\ IF v = 1 THEN pc' = "ret1" /\ UNCHANGED <<us, polls>>
               ELSE IF Inverted \/ polls = MaxPoll THEN pc' = "try" /\ polls' = 0 /\ us' = us
               ELSE pc' = "conf" /\ polls' = polls + 1 /\ us' = us + 1
            /\ last' = IF v = 1 THEN "c" ELSE "m"
            /\ UNCHANGED <<pos>>
Next == Try \/ \E v \in {0, 1} : Sync(v) \/ Byte(v) \/ Conf1(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the device is content with every step, and the result is right
Legal == /\ pc = "ret1" => Ret(x, 1)
         /\ pc = "ret0" => Ret(x, 0)
         /\ pc = "try" /\ x.a \in 1..(Attempts - 1) => Fall(x, 1) # {}
Ends == <>(pc \in {"ret0", "ret1"})
=============================================================================
