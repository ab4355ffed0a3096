------------------------------ MODULE GpioTrace -------------------------------
(* Recorded executions of the GPIO layer, the watchdog and its daemon             *)
(* (harness/drv_gpio.c): every change of a register, mapping, privilege.          *)
EXTENDS TraceBase, Gpio
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Set(q) == {q[i] : i \in 1..Len(q)}
R(q) == [c \in 0..3 |-> Set(q[c + 1])]
C03 == 0..3
\* ph: idle, cons, up, des; fd: /dev/mem is open; maps: mapped controllers; bad: a step of the construction failed
\* pend: operations not yet finished, by thread
\* wd: what the watchdog is doing: "no", "cons", "ready", "run"; at: when the last pulse began; hi: in a pulse
\* main: the daemon: "no", "run", "usage", "dead" (a message of an emergency ended it); root
\* priv: steps done of giving up the privileges, 9: one has failed; who: user and group to become
Init == tr \in 1..NTraces /\ l = 1
        /\ s = [g |-> [latch |-> R(M.latch), oe |-> R(M.oe), ext |-> [c \in C03 |-> {}]], ph |-> "idle", fd |-> FALSE, maps |-> {}, bad |-> FALSE,
                pend |-> {}, wd |-> "no", at |-> 0, begun |-> FALSE, hi |-> FALSE, main |-> "no", root |-> TRUE, priv |-> 0, who |-> <<0, 0>>, ms |-> 0]
\* one thread's operation is of its own pin
Pin(c, b) == c * 32 + b
\* if there is no user or group of that name
Nobody == 65534
Chg(e) ==
  LET n == IF e.k = "out" THEN [s.g EXCEPT !.latch[e.c] = (@ \cup Set(e.on)) \ Set(e.off)]
           ELSE [s.g EXCEPT !.oe[e.c] = (@ \cup Set(e.on)) \ Set(e.off)]
  IN \/ /\ \E q \in s.pend : n = Effect(s.g, q.o, q.p)
        /\ s' = [s EXCEPT !.g = n]
     \* the watchdog's pin becomes an output and low
     \/ /\ s.wd = "cons" \/ (s.main = "run" /\ s.wd = "no" /\ s.ph = "up" /\ (s.root => s.priv = 3))
        /\ n \in {Effect(s.g, "out", WdPin), Effect(s.g, "clr", WdPin)}
        /\ s' = [s EXCEPT !.g = n]
     \* a pulse
     \/ /\ s.wd = "run" \/ (s.main = "run" /\ s.wd = "no" /\ s.ph = "up" /\ Bit(WdPin) \notin s.g.oe[1])
        /\ ~s.hi /\ n = Effect(s.g, "set", WdPin)
        /\ (s.main = "run" => Bit(WdPin) \notin s.g.oe[1] /\ (s.root => s.priv = 3))
        /\ IF s.begun THEN e.ms >= s.at + WdMs /\ e.ms <= s.at + WdMs + Slack ELSE s.wd = "run" => e.ms <= s.at + Slack
        /\ s' = [s EXCEPT !.g = n, !.hi = TRUE, !.begun = TRUE, !.at = e.ms, !.wd = "run"]
     \/ /\ s.hi /\ n = Effect(s.g, "clr", WdPin) /\ e.ms <= s.at + Slack
        /\ s' = [s EXCEPT !.g = n, !.hi = FALSE]
Alive(ms) == s.wd = "run" => ms <= s.at + Slack + (IF s.begun THEN WdMs ELSE 0)
Step(e) ==
  CASE e.e = "ext" -> s' = [s EXCEPT !.g.ext[e.c] = Set(e.x)]
    [] e.e = "cons" -> s.ph = "idle" /\ s.maps = {} /\ ~s.fd /\ s' = [s EXCEPT !.ph = "cons", !.bad = FALSE]
    [] e.e = "open" -> /\ ~s.fd /\ ~s.bad /\ (s.ph = "cons" \/ (s.main = "run" /\ s.ph = "idle")) /\ e.rw = 1 /\ e.sync = 1
                       /\ s' = [s EXCEPT !.ph = "cons", !.fd = e.r = 1, !.bad = e.r = 0]
    [] e.e = "map" -> s.ph = "cons" /\ s.fd /\ ~s.bad /\ e.c \in C03 \ s.maps /\ e.rw = 1
                      /\ s' = [s EXCEPT !.maps = IF e.r = 1 THEN @ \cup {e.c} ELSE @, !.bad = e.r = 0]
    [] e.e = "unmap" -> e.c \in s.maps /\ ((s.ph = "cons" /\ s.bad) \/ s.ph = "des") /\ s' = [s EXCEPT !.maps = @ \ {e.c}]
    [] e.e = "close" -> s.fd /\ s.ph = "cons" /\ s' = [s EXCEPT !.fd = FALSE, !.ph = IF s.main = "run" /\ s.maps = C03 /\ ~s.bad THEN "up" ELSE @]
    [] e.e = "consd" -> /\ s.ph = "cons" /\ ~s.fd /\ e.r = (IF s.bad THEN 0 ELSE 1) /\ s.maps = (IF s.bad THEN {} ELSE C03)
                        /\ s' = [s EXCEPT !.ph = IF s.bad THEN "idle" ELSE "up"]
    [] e.e = "des" -> s.ph = "up" /\ s' = [s EXCEPT !.ph = "des", !.wd = "no"]
    [] e.e = "desd" -> s.ph = "des" /\ s.maps = {} /\ s' = [s EXCEPT !.ph = "idle"]
    [] e.e = "op" -> s.ph = "up" /\ s' = [s EXCEPT !.pend = @ \cup {[t |-> e.t, o |-> e.o, p |-> e.p]}]
    [] e.e = "opd" -> \E q \in s.pend : /\ q.t = e.t
                                        /\ Effect(s.g, q.o, q.p) = s.g
                                        /\ e.r = (IF q.o = "rd" /\ Level(s.g, q.p) THEN 1 ELSE 0)
                                        /\ s' = [s EXCEPT !.pend = @ \ {q}]
    [] e.e = "chg" -> s.ph = "up" /\ Chg(e)
    [] e.e = "wdc" -> s.ph = "up" /\ s.wd \in {"no", "ready"} /\ s' = [s EXCEPT !.wd = "cons"]
    [] e.e = "wdcd" -> s.wd = "cons" /\ Bit(WdPin) \notin s.g.oe[1] /\ Bit(WdPin) \notin s.g.latch[1] /\ s' = [s EXCEPT !.wd = "ready"]
    [] e.e = "wd" -> s.wd = "ready" /\ ~s.hi /\ s' = [s EXCEPT !.wd = "run", !.begun = FALSE, !.at = e.ms]
    [] e.e = "now" -> Alive(e.ms) /\ (s.main = "run" => s.wd = "run") /\ s' = s
    [] e.e = "cancel" -> s' = s
    [] e.e = "cancelled" -> s' = [s EXCEPT !.wd = "ready"]
    [] e.e = "main" -> s.ph = "idle" /\ s' = [s EXCEPT !.main = IF e.usage = 1 THEN "usage" ELSE "run", !.root = e.root = 1,
                                                                           !.who = <<IF e.pw[1] = 1 THEN e.pw[2] ELSE Nobody,
                                                                                     IF e.gr[1] = 1 THEN e.gr[2] ELSE IF e.pw[1] = 1 THEN e.pw[3] ELSE Nobody>>]
    \* the daemon only ends if it is not to run or cannot
    [] e.e = "maind" -> /\ e.r # 0 /\ s.wd = "no"
                        /\ \/ (s.main = "usage" \/ (s.main = "run" /\ s.bad)) /\ s.maps = {} /\ ~s.fd
                           \/ s.main = "run" /\ s.priv = 9
                        /\ s' = [s EXCEPT !.main = "over"]
    [] e.e = "emerg" -> s.main = "run" /\ s.priv = 9 /\ s' = [s EXCEPT !.main = "dead"]
    [] e.e = "priv" -> /\ s.main = "run" /\ s.ph = "up" /\ s.root
                       /\ CASE e.c = "groups" -> s.priv \in {0, 9} /\ e.v = 0
                            [] e.c = "gid" -> s.priv \in {1, 9} /\ e.v = s.who[2]
                            [] e.c = "uid" -> s.priv \in {2, 9} /\ e.v = s.who[1]
                            [] OTHER -> FALSE
                       /\ s' = [s EXCEPT !.priv = IF e.r = 0 \/ s.priv = 9 THEN 9 ELSE @ + 1]
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
