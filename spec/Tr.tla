--------------------------------- MODULE Tr ---------------------------------
(* The byte stream of the GPS receiver: what it means. A packet is              *)
(* <<Bom, id, data with every Bom doubled, Bom, Eom>>; Max is the size of the   *)
(* reader's buffer, which is never filled completely.                          *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Max
Bom == 16
Eom == 3
TrInit == [m |-> "sync", buf |-> <<>>, out |-> <<>>]
TrStart(p, b) == [p EXCEPT !.m = "body", !.buf = <<b>>]
TrHunt(p) == [p EXCEPT !.m = "hunt", !.buf = <<>>]
TrAdd(p, b) == IF Len(p.buf) + 1 >= Max THEN TrHunt(p) ELSE [p EXCEPT !.m = "body", !.buf = Append(@, b)]
TrStep(p, b) ==
  CASE p.m = "sync"  -> IF b = Bom THEN [p EXCEPT !.m = "id"] ELSE TrHunt(p)
    [] p.m = "hunt"  -> IF b = Bom THEN [p EXCEPT !.m = "id"] ELSE p
    [] p.m = "id"    -> IF b \in {Bom, Eom} THEN TrHunt(p) ELSE TrStart(p, b)
    [] p.m = "body"  -> IF b = Bom THEN [p EXCEPT !.m = "esc"] ELSE TrAdd(p, b)
    [] p.m = "esc"   -> IF b = Eom THEN [p EXCEPT !.m = "sync", !.buf = <<>>, !.out = Append(@, p.buf)]
                        ELSE IF b = Bom THEN TrAdd(p, Bom) ELSE TrStart(p, b)
TrParse(p, bs) ==
  LET RECURSIVE go(_, _)
      go(q, i) == IF i > Len(bs) THEN q ELSE go(TrStep(q, bs[i]), i + 1)
  IN go(p, 1)
TrCut(p) == TrInit
RECURSIVE TrEsc(_)
TrEsc(b) == IF b = <<>> THEN <<>> ELSE (IF Head(b) = Bom THEN <<Bom, Bom>> ELSE <<Head(b)>>) \o TrEsc(Tail(b))
TrWire(k) == <<Bom, k[1]>> \o TrEsc(Tail(k)) \o <<Bom, Eom>>

\* the supplemental timing packet: is there a position in it?
TrBit(x, k) == (x \div (2 ^ k)) % 2 = 1
IsPos(k) == Len(k) = 69 /\ k[1] = 143 /\ k[2] = 172
PosGood(k) == /\ k[3] = 7 /\ k[4] = 0               \* over-determined clock, locked to GPS
              /\ k[10] = 0 /\ k[11] = 0              \* no critical alarm
              /\ ~TrBit(k[12], 0) /\ ~TrBit(k[13], 5) \* not in test mode, no self survey
              /\ k[14] = 0                           \* doing fixes
Lat(k) == SubSeq(k, 38, 45)
Lon(k) == SubSeq(k, 46, 53)
Alt(k) == SubSeq(k, 54, 61)
=============================================================================
