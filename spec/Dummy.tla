------------------------------- MODULE Dummy --------------------------------
(* The simulated receiver: what it may deliver next.                           *)
EXTENDS Rc
\* the point of a day: seconds and nanoseconds; how many microseconds lie between two of them (at most some seconds)
DaySec == 86400
Sec(a, b) == (b.sod + DaySec - a.sod) % DaySec
Near(a, b) == Sec(a, b) <= 10
Us(a, b) == Sec(a, b) * 1000000 + (b.ns \div 1000) - (a.ns \div 1000)
NotBefore(a, b) == Near(a, b) /\ (Sec(a, b) > 0 \/ b.ns >= a.ns)
\* the time stamp of a frame: 18 bits of seconds, 30 bits of nanoseconds
Stamp(d) == [sod |-> d[1] * 1024 + d[2] * 4 + d[3] \div 64,
             ns  |-> (d[3] % 64) * 16777216 + d[4] * 65536 + d[5] * 256 + d[6]]
MinPause == 5000
MaxPause == 325000
\* the first frame behind the initialization tells that the receiver is synchronized, all others are extended squitters
Type(first) == IF first THEN 52 ELSE 51
Body(first, d) ==
  /\ Len(d) = HdrLen + PayLen(Type(first))
  /\ IF first THEN \A i \in 7..Len(d) : d[i] = 0 ELSE d[8] \div 8 = 17
=============================================================================
