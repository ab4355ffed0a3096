------------------------------- MODULE FdTrace -------------------------------
(* Recorded histories of everything that opens descriptors and everything that   *)
(* starts programs (harness/drv_fd.c).                                           *)
EXTENDS TraceBase
F == INSTANCE Fd
VARIABLES tr, l, s
vars == <<tr, l, s>>
\* tab: tables of the processes, f: how programs are started now
Init == tr \in 1..NTraces /\ l = 1 /\ s = [tab |-> [p \in {0} |-> {}], f |-> "no"]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Tab(p) == s.tab[p]
With(p, t) == [s EXCEPT !.tab = [x \in DOMAIN s.tab \cup {p} |-> IF x = p THEN t ELSE s.tab[x]]]
Post(e) ==
  CASE e.e = "open" -> e.p \in DOMAIN s.tab /\ F!MayOpen(Tab(e.p), e.fd, e.cx = 1, e.p # 0) /\ s' = With(e.p, F!Opened(Tab(e.p), e.fd, e.cx = 1))
    [] e.e = "close" -> e.p \in DOMAIN s.tab /\ e.fd \in F!Fds(Tab(e.p)) /\ s' = With(e.p, F!Closed(Tab(e.p), e.fd))
    [] e.e = "tty" -> F!MayOpenTerminal(e.nt = 1) /\ s' = s
    [] e.e = "other" -> F!MayStart(Tab(0), SetOf(e.inh), "null", TRUE) /\ s' = s
    [] e.e = "call" -> s.f = "no" /\ s' = [s EXCEPT !.f = e.f]
    [] e.e = "fork" -> e.p \in DOMAIN s.tab /\ e.c \notin DOMAIN s.tab /\ s' = With(e.c, Tab(e.p))
    [] e.e = "exec" -> /\ e.p \in DOMAIN s.tab /\ s.f # "no" /\ (s.f = "background" => e.p # 0)
                       /\ F!MayStart(Tab(e.p), SetOf(e.inh), e.in, s.f = "background") /\ s' = s
    [] e.e = "end" -> s' = s
    [] OTHER -> FALSE
Next == /\ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr
        /\ (LET e == Evs(tr)[l] IN IF e.e = "call" /\ e.f = "back" THEN s' = [s EXCEPT !.f = "no"] ELSE Post(e))
        /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
