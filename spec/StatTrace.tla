------------------------------ MODULE StatTrace -------------------------------
(* Recorded executions of the statistics component (harness/drv_stat.c)            *)
EXTENDS TraceBase, Stat
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Zero == [fil |-> [v |-> [i \in 1..8 |-> <<>>], ty |-> [i \in 1..32 |-> <<>>]]]
\* ph: "no", "cons", "idle", "run"; at: when the last report was printed; last: with what, and its second
\* cur: counters taken for the next report; can: cancelled
Init == tr \in 1..NTraces /\ l = 1
        /\ s = [ph |-> "no", start |-> 0, st |-> <<>>, at |-> 0, last |-> Zero, sec |-> 0, cur |-> <<>>, from |-> 0, can |-> FALSE]
Due == s.at + M.iv * 1000
Slack == 10
\* the counters are taken when the report is due
Take(e) == /\ s.ph = "run" /\ e.e \notin DOMAIN s.cur
           /\ IF DOMAIN s.cur = {} THEN e.n >= Due /\ e.n <= Due + Slack ELSE TRUE
           /\ s' = [s EXCEPT !.cur = (e.e :> e) @@ s.cur, !.from = IF DOMAIN s.cur = {} THEN e.n ELSE @]
Rep(e) ==
  /\ s.ph = "run" /\ DOMAIN s.cur = {"buf", "net", "fil"}
  /\ \E sec \in (s.from \div 1000)..(e.n \div 1000) :
       LET r == Report(s.cur, s.last, sec - s.start, sec - s.sec) IN
       /\ Len(e.ls) = Len(r) /\ e.ls[2] = s.st /\ \A i \in 1..Len(r) : i = 2 \/ Says(e.ls[i], r[i])
       /\ s' = [s EXCEPT !.last = s.cur, !.sec = sec, !.cur = <<>>, !.at = e.n]
Step(e) ==
  CASE e.e = "cons" -> s.ph = "no" /\ s' = [s EXCEPT !.ph = "cons", !.start = e.s, !.st = e.at]
    [] e.e = "consd" -> s.ph = "cons" /\ e.r = 1 /\ e.on = 1 /\ s' = [s EXCEPT !.ph = "idle"]
    [] e.e = "main" -> s.ph = "idle" /\ s' = [s EXCEPT !.ph = "run", !.at = e.ms, !.last = Zero, !.sec = e.ms \div 1000, !.cur = <<>>, !.can = FALSE]
    [] e.e \in {"buf", "net", "fil"} -> Take(e)
    [] e.e = "rep" -> Rep(e)
    [] e.e = "cancel" -> s.ph = "run" /\ (DOMAIN s.cur = {} => e.ms <= Due + Slack) /\ s' = [s EXCEPT !.can = TRUE]
    \* a report which was begun is there as a whole
    [] e.e = "stopped" -> s.can /\ DOMAIN s.cur = {} /\ e.locked = 0 /\ s' = [s EXCEPT !.ph = "idle"]
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
