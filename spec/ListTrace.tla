------------------------------ MODULE ListTrace ------------------------------
(* Recorded histories of util/list.h (harness/drv_list.c)                       *)
EXTENDS List, TraceBase
VARIABLES tr, l, q
vars == <<tr, l, q>>
Init == tr \in 1..NTraces /\ l = 1 /\ q = [i \in 1..Meta(tr).nl |-> <<>>]
Step(e) ==
  CASE e.e = "op" -> LET x == IF e.o \in {"cpush", "cunshift", "from", "until", "lfrom", "luntil"} THEN e.x + 1 ELSE e.x
                     IN q' = Effect(q, e.o, e.a, x, e.y) /\ e.r = Result(q, e.o, e.a, x, e.y)
    [] e.e = "st" -> q' = q /\ e.f = q /\ (Has(e, "b") => \A i \in DOMAIN q : e.b[i] = Rev(q[i]))
    [] e.e = "empty" -> q' = q /\ e.r = 1
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
