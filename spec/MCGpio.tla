------------------------------- MODULE MCGpio --------------------------------
(* Two threads operating on pins of their own, register access by register        *)
(* access: levels are changed by writing ones to a set or clear register, which   *)
(* is atomic; directions by reading and writing back (RMW). With Dirs = TRUE both *)
(* threads change directions at the same time: TLC finds the lost change, which   *)
(* is why directions are only changed while the parts are constructed.            *)
EXTENDS Gpio, TLC
CONSTANTS Dirs, NOps
\* pins 0 and 1 belong to controller 0
Of == [t \in {1, 2} |-> {t - 1, 32 + t}]
VARIABLES g, want, pc, op, rd, k
vars == <<g, want, pc, op, rd, k>>
Empty == [latch |-> [c \in 0..3 |-> {}], oe |-> [c \in 0..3 |-> 0..31], ext |-> [c \in 0..3 |-> {}]]
Init == g = Empty /\ want = Empty /\ pc = [t \in {1, 2} |-> "idle"] /\ op = [t \in {1, 2} |-> [o |-> "-", p |-> 0]]
        /\ rd = [t \in {1, 2} |-> {}] /\ k = [t \in {1, 2} |-> 0]
Ops(t) == {"set", "clr"} \cup (IF Dirs \/ t = 1 THEN {"in", "out"} ELSE {})
Begin(t) == /\ pc[t] = "idle" /\ k[t] < NOps
            /\ \E o \in Ops(t), p \in Of[t] : op' = [op EXCEPT ![t] = [o |-> o, p |-> p]]
            /\ pc' = [pc EXCEPT ![t] = IF op'[t].o \in {"in", "out"} THEN "rd" ELSE "wr"]
            /\ k' = [k EXCEPT ![t] = @ + 1] /\ UNCHANGED <<g, want, rd>>
Rd(t) == /\ pc[t] = "rd" /\ rd' = [rd EXCEPT ![t] = g.oe[Ctl(op[t].p)]] /\ pc' = [pc EXCEPT ![t] = "wr"] /\ UNCHANGED <<g, want, op, k>>
Wr(t) == /\ pc[t] = "wr"
         /\ LET c == Ctl(op[t].p) b == Bit(op[t].p) IN
            g' = CASE op[t].o = "set" -> [g EXCEPT !.latch[c] = @ \cup {b}]
                   [] op[t].o = "clr" -> [g EXCEPT !.latch[c] = @ \ {b}]
                   [] op[t].o = "in" -> [g EXCEPT !.oe[c] = rd[t] \cup {b}]
                   [] op[t].o = "out" -> [g EXCEPT !.oe[c] = rd[t] \ {b}]
         /\ want' = Effect(want, op[t].o, op[t].p)
         /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<op, rd, k>>
Next == \E t \in {1, 2} : Begin(t) \/ Rd(t) \/ Wr(t)
Spec == Init /\ [][Next]_vars
Exact == g = want
=============================================================================
