-------------------------------- MODULE Gpio ---------------------------------
(* Four GPIO controllers of 32 pins each. latch: output levels; oe: pins which    *)
(* are inputs; ext: levels from outside. Pin p belongs to controller p/32.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Ctl(p) == p \div 32
Bit(p) == p % 32
Level(g, p) == IF Bit(p) \in g.oe[Ctl(p)] THEN Bit(p) \in g.ext[Ctl(p)] ELSE Bit(p) \in g.latch[Ctl(p)]
\* what an operation changes: one bit of one register
Effect(g, o, p) ==
  CASE o = "set" -> [g EXCEPT !.latch[Ctl(p)] = @ \cup {Bit(p)}]
    [] o = "clr" -> [g EXCEPT !.latch[Ctl(p)] = @ \ {Bit(p)}]
    [] o = "in" -> [g EXCEPT !.oe[Ctl(p)] = @ \cup {Bit(p)}]
    [] o = "out" -> [g EXCEPT !.oe[Ctl(p)] = @ \ {Bit(p)}]
    [] OTHER -> g
WdPin == 60
WdMs == 30000
\* slack of a sleeping thread
Slack == 10
=============================================================================
