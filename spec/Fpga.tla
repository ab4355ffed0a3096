-------------------------------- MODULE Fpga ---------------------------------
(* How an FPGA is programmed over five pins, as seen by the device: while nconf   *)
(* is low it is in reset; after that it signals with nstat that it is ready;      *)
(* every rising edge of dclk takes one bit of data0; nstat low signals an error;  *)
(* confd high signals that the configuration is complete.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Attempts, ResetUs, WaitUs
\* bits of a byte, least significant first
RECURSIVE Bits(_)
Bits(b) == IF b = <<>> THEN <<>> ELSE [i \in 1..8 |-> (Head(b) \div (2 ^ (i - 1))) % 2] \o Bits(Tail(b))
\* a: number of attempts; lowAt, upAt: when nconf fell and rose; rdy: nstat was seen high;
\* n: bits taken in this attempt; chk: nstat was seen high after this many bits; fail: this attempt may be given up; err: it must be;
\* endAt: when the last bit was taken; done: confd was seen high after that
First == [a |-> 0, nconf |-> 2, dclk |-> 2, data |-> 2, lowAt |-> 0, upAt |-> 0, rdy |-> FALSE, n |-> 0, chk |-> 0,
          fail |-> FALSE, err |-> FALSE, endAt |-> 0, done |-> FALSE]
\* nconf falls: the next attempt, only after the previous one failed
Fall(x, us) == IF x.nconf = 0 THEN {x}
               ELSE IF x.a < Attempts /\ ~x.done /\ (x.a = 0 \/ x.fail)
               THEN {[x EXCEPT !.a = @ + 1, !.nconf = 0, !.lowAt = us, !.rdy = FALSE, !.n = 0, !.chk = 0, !.fail = FALSE, !.err = FALSE, !.endAt = 0]} ELSE {}
Rise(x, us) == IF x.nconf = 1 THEN {x}
               ELSE IF x.nconf = 0 /\ us - x.lowAt >= ResetUs /\ x.dclk = 0 THEN {[x EXCEPT !.nconf = 1, !.upAt = us]} ELSE {}
Data(x, v) == IF x.dclk = 0 THEN {[x EXCEPT !.data = v]} ELSE {}
Clock(x, v, bits) ==
  IF v = 0 \/ x.dclk = 1 THEN {[x EXCEPT !.dclk = v]}
  ELSE IF x.dclk = 0 /\ x.nconf = 1 /\ x.rdy /\ ~x.err /\ x.n < Len(bits) /\ x.data = bits[x.n + 1] /\ x.chk >= (x.n \div 8) * 8
  THEN {[x EXCEPT !.dclk = 1, !.n = @ + 1]} ELSE {}
\* nstat is read; a time-out only counts after the whole waiting time
Stat(x, v, us, bits) ==
  IF x.nconf # 1 \/ x.done THEN {x}
  ELSE IF v = 1 THEN {[x EXCEPT !.rdy = TRUE, !.chk = x.n, !.fail = IF x.rdy THEN @ ELSE FALSE]}
  ELSE IF ~x.rdy THEN {[x EXCEPT !.fail = us - x.upAt >= WaitUs]}
  ELSE {[x EXCEPT !.fail = TRUE, !.err = TRUE]}
\* the last bit has been taken
Ended(x, bits) == x.nconf = 1 /\ x.n = Len(bits)
Conf(x, v, us, bits) ==
  IF Ended(x, bits) /\ ~x.err /\ x.chk = x.n
  THEN IF v = 1 THEN {[x EXCEPT !.done = TRUE]}
       ELSE {[x EXCEPT !.endAt = IF @ = 0 THEN us ELSE @, !.fail = x.endAt # 0 /\ us - x.endAt >= WaitUs]}
  ELSE {x}
Ret(x, r) == IF r = 1 THEN x.done /\ x.nconf = 1 /\ x.dclk = 0 ELSE ~x.done /\ x.fail /\ x.a = Attempts
=============================================================================
