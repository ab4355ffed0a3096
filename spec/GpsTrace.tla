------------------------------ MODULE GpsTrace ------------------------------
(* Recorded executions of core/gps.c (harness/drv_gps.c): every operation     *)
(* takes effect at one moment between call and return; messages are sent       *)
(* exactly when Gps.tla says so.                                               *)
EXTENDS Gps, TraceBase
VARIABLES tr, l, g, th, cx
vars == <<tr, l, g, th, cx>>
Ts == 0..5
None == [st |-> "none"]
Init == tr \in 1..NTraces /\ l = 1 /\ g = InitGps /\ th = [t \in Ts |-> None] /\ cx = {}
\* the moment an operation takes effect; an update which answers a request holds on to the state until it is done
\* (a cancelled one lets go of it before its end is seen)
Busy == \E t \in Ts \ cx : th[t].st \in {"answer", "answering"}
Lin(t) ==
  /\ th[t].st = "called" /\ l <= NEv(tr)
  /\ LET e == th[t].ev
         y == CASE e.op = "set" -> GSet(g, e.b, e.fx = 1) [] e.op = "fix" -> GFix(g, e.fx = 1)
                [] e.op = "reset" -> GReset(g) [] e.op = "rneed" -> GWithdraw(g)
                [] OTHER -> IF Avail(g) THEN g ELSE GDefer(g)
     IN /\ ~Busy \/ e.op = "rneed"
        /\ g' = y
        /\ th' = [th EXCEPT ![t] =
             IF e.op = "req" /\ Avail(g) THEN [st |-> "reply", b |-> g.pos, ev |-> e]
             ELSE IF e.op \in {"set", "fix"} /\ Answers(y) THEN [st |-> "answer", b |-> y.pos, ev |-> e]
             ELSE [st |-> "eff", ok |-> TRUE, ev |-> e]]
  /\ UNCHANGED <<tr, l, cx>>
Step(e) ==
  LET t == e.t x == th[t] IN
  CASE e.e = "call" -> x.st = "none" /\ th' = [th EXCEPT ![t] = [st |-> "called", ev |-> e]] /\ g' = g
    [] e.e = "send" -> /\ x.st \in {"reply", "answer"} /\ e.d = MsgGps(x.b)
                       /\ th' = [th EXCEPT ![t].st = IF @ = "reply" THEN "replying" ELSE "answering"] /\ g' = g
    [] e.e = "sent" -> /\ x.st \in {"replying", "answering"}
                       /\ th' = [th EXCEPT ![t] = [st |-> "eff", ok |-> x.st = "answering" \/ e.ok = 1, ev |-> x.ev]]
                       /\ g' = IF x.st = "answering" /\ e.ok = 1 THEN GWithdraw(g) ELSE g
    [] e.e = "ret" -> x.st = "eff" /\ (e.ok = 1) = x.ok /\ th' = [th EXCEPT ![t] = None] /\ g' = g
    \* a cancelled thread: whatever it was doing ends there
    [] e.e = "exit" -> x.st \in {"none", "replying", "answering", "eff"} /\ th' = [th EXCEPT ![t] = None] /\ g' = g
    [] e.e = "cancel" -> UNCHANGED <<g, th>>
    [] e.e = "idle" -> e.locks = 0 /\ UNCHANGED <<g, th>>
    [] OTHER -> FALSE
\* an effect is only needed when its thread acts or something is sent or returned
Next == \/ \E t \in Ts : Lin(t)
        \/ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l])
           /\ cx' = (IF Evs(tr)[l].e = "cancel" THEN cx \cup {Evs(tr)[l].th} ELSE cx)
           /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
