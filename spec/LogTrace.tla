------------------------------ MODULE LogTrace -------------------------------
(* Recorded executions of the logs (harness/drv_log.c): messages of several       *)
(* threads and what reached the output. A message takes effect at one moment      *)
(* during its call: its line is then appended to the output of its level.         *)
EXTENDS TraceBase, Log
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Lib == M.lib = 1
Last == Evs(tr)[NEv(tr)]
Out(k) == IF Has(Last, "out") THEN Last.out[k] ELSE <<>>
\* pos: how much of the outputs is explained; pend: messages being logged, by thread; up: part of the process
Init == tr \in 1..NTraces /\ l = 1 /\ s = [pos |-> <<0, 0>>, pend |-> <<>>, done |-> {}]
At(k, n, x) == n + Len(x) <= Len(Out(k)) /\ SubSeq(Out(k), n + 1, n + Len(x)) = x
Rm(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Emit == /\ \E t \in DOMAIN s.pend \ s.done :
           LET m == s.pend[t] k == Stream(m, Lib) IN
           \E x \in Lines(m, Lib) : At(k, s.pos[k], x) /\ s' = [s EXCEPT !.pos[k] = @ + Len(x), !.done = @ \cup {t}]
        /\ l' = l /\ tr' = tr
All(k) == s.pos[k] = Len(Out(k))
\* a message which another thread is writing while the process ends
Partial(k) == All(k) \/ \E t \in DOMAIN s.pend \ s.done : \E x \in Lines(s.pend[t], Lib) :
                          Stream(s.pend[t], Lib) = k /\ Len(Out(k)) - s.pos[k] <= Len(x) /\ At(k, s.pos[k], SubSeq(x, 1, Len(Out(k)) - s.pos[k]))
Step(e) ==
  CASE e.e = "log" -> e.t \notin DOMAIN s.pend /\ s' = [s EXCEPT !.pend = (e.t :> e) @@ s.pend]
    [] e.e = "logd" -> e.t \in s.done /\ s.pend[e.t].lv # Emerg /\ s' = [s EXCEPT !.pend = Rm(@, e.t), !.done = @ \ {e.t}]
    \* cancelled: the message it was about to log is there as a whole or not at all
    [] e.e = "gone" -> s' = [s EXCEPT !.pend = Rm(@, e.w), !.done = @ \ {e.w}]
    [] e.e = "cancel" -> s' = s
    [] e.e = "abort" -> e.t \in s.done /\ s.pend[e.t].lv = Emerg /\ Partial(1) /\ Partial(2) /\ l = NEv(tr) /\ s' = s
    [] e.e = "out" -> DOMAIN s.pend = {} /\ All(1) /\ All(2) /\ e.locked = 0 /\ l = NEv(tr) /\ s' = s
    [] OTHER -> FALSE
\* a thread whose call returns has had its line written: urgency is not needed, the line is looked for
Next == \/ Emit
        \/ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
