------------------------------ MODULE FpgaTrace -------------------------------
(* Recorded runs of the FPGA component (harness/drv_fpga.c): every call of the    *)
(* GPIO layer, with the levels a simulated device answers, the system calls.      *)
EXTENDS TraceBase, Fpga
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
\* pins of the boards
Pin == IF M.white = 1 THEN [confd |-> 38, dclk |-> 39, nstat |-> 34, data |-> 44, nconf |-> 37]
       ELSE [confd |-> 45, dclk |-> 47, nstat |-> 46, data |-> 44, nconf |-> 61]
Outs == {Pin.dclk, Pin.data, Pin.nconf}
Ins == {Pin.confd, Pin.nstat}
Init == tr \in 1..NTraces /\ l = 1 /\ s = [x |-> First, in |-> {}, out |-> {}, ph |-> "idle", bad |-> FALSE, bits |-> <<>>]
To(ys) == \E y \in ys : s' = [s EXCEPT !.x = y]
Drive(p, v, us) ==
  /\ p \in s.out
  /\ IF s.ph = "init"
     THEN \* idle levels
          p = Pin.dclk /\ v = 0 /\ s' = [s EXCEPT !.x.dclk = 0]
     ELSE /\ s.ph = "run" /\ ~s.bad
          /\ CASE p = Pin.nconf -> To(IF v = 0 THEN Fall(s.x, us) ELSE Rise(s.x, us))
               [] p = Pin.data -> To(Data(s.x, v))
               [] p = Pin.dclk -> To(Clock(s.x, v, s.bits))
Step(e) ==
  CASE e.e = "init" -> s.ph = "idle" /\ s' = [s EXCEPT !.ph = "init"]
    [] e.e = "initd" -> /\ s.ph = "init" /\ e.r = 1 /\ s.in = Ins /\ s.out = Outs /\ s.x.dclk = 0 /\ s' = [s EXCEPT !.ph = "ready"]
    [] e.e = "dir" -> /\ s.ph = "init" /\ e.p \in (IF e.d = 1 THEN Outs ELSE Ins)
                      /\ s' = IF e.d = 1 THEN [s EXCEPT !.out = @ \cup {e.p}] ELSE [s EXCEPT !.in = @ \cup {e.p}]
    \* without a file nothing can be programmed
    [] e.e = "chk" -> s.ph = "ready" /\ (e.r = 0 <=> (e.conf = 1 /\ e.empty = 1)) /\ s' = s
    [] e.e = "set" -> Drive(e.p, 1, e.us)
    [] e.e = "clr" -> Drive(e.p, 0, e.us)
    [] e.e = "rd" -> /\ s.ph = "run" /\ e.p \in s.in
                     /\ To(IF e.p = Pin.nstat THEN Stat(s.x, e.v, e.us, s.bits) ELSE Conf(s.x, e.v, e.us, s.bits))
    \* a new start programs the device anew
    [] e.e = "start" -> s.ph = "ready" /\ s' = [s EXCEPT !.ph = "run", !.bad = e.ok = 0, !.bits = Bits(e.f),
                                                         !.x = [First EXCEPT !.nconf = s.x.nconf, !.dclk = s.x.dclk, !.data = s.x.data]]
    [] e.e = "fault" -> s.ph = "run" /\ s.x.a = 0 /\ s' = [s EXCEPT !.bad = TRUE]
    [] e.e = "startd" -> /\ s.ph = "run" /\ e.fds = 0 /\ e.maps = 0
                         /\ IF s.bad THEN e.r = 0 /\ s.x.a = 0 ELSE Ret(s.x, e.r)
                         /\ s' = [s EXCEPT !.ph = "ready"]
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
