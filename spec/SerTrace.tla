------------------------------ MODULE SerTrace ------------------------------
(* Recorded histories of util/serial_eth.c with the configuration and the login  *)
(* (harness/drv_ser.c).                                                          *)
EXTENDS TraceBase
S == INSTANCE SerEth
VARIABLES tr, l, s
vars == <<tr, l, s>>
Zero == <<0, 0, 0, 0>>
\* m: idle, at the device ID or the serial number of a login, or the result is due; x: the result of the lookup for the login
Init == tr \in 1..NTraces /\ l = 1 /\ s = [g |-> FALSE, no |-> Zero, sg |-> FALSE, sno |-> Zero, m |-> "idle", x |-> [ok |-> FALSE, no |-> Zero], r |-> 0]
World(e) == [mac |-> e.mac, sock |-> e.sock = 1, sys |-> e.sys = 1, eth |-> e.eth = 1]
After(r) == [s EXCEPT !.g = r.ok, !.no = IF r.ok THEN r.no ELSE @]
Idle(e) ==
  CASE e.e = "defaults" -> s' = [s EXCEPT !.g = FALSE, !.no = Zero]
    [] e.e = "config" -> e.r = 1 /\ s' = [s EXCEPT !.g = e.none = 0, !.no = IF e.none = 1 THEN Zero ELSE e.x]
    [] e.e = "save" -> e.r = 1 /\ s' = [s EXCEPT !.sg = s.g, !.sno = s.no]
    [] e.e = "restart" -> e.r = 1 /\ s' = [s EXCEPT !.g = s.sg, !.no = IF s.sg THEN s.sno ELSE Zero]
    [] e.e = "get" -> \E r \in S!Get(s.g, s.no, World(e)) :
                        /\ e.open = 0 /\ (e.r = "ok") = r.ok /\ (~r.ok => e.r \in {"perm", "temp"})
                        /\ (r.ok /\ e.p = 1) => e.x = r.no
                        /\ s' = After(r)
    [] e.e = "login" -> \E r \in S!Get(s.g, s.no, World(e)) : s' = [s EXCEPT !.m = "id", !.x = r]
    [] OTHER -> FALSE
Login(e) ==
  CASE s.m = "id" -> e.e = "send" /\ SubSeq(e.b, 1, 2) = <<26, 65>> /\ s' = [s EXCEPT !.m = IF e.r = 1 THEN "serial" ELSE "end", !.r = e.r]
    [] s.m = "serial" -> IF s.x.ok THEN /\ e.e = "send" /\ e.b = <<26, 53>> \o S!Esc(s.x.no)
                                        /\ s' = [After(s.x) EXCEPT !.m = "end", !.r = e.r]
                         ELSE e.e = "emerg" /\ s' = [s EXCEPT !.m = "dead"]
    [] s.m = "end" -> e.e = "loggedin" /\ e.r = s.r /\ e.open = 0 /\ s' = [s EXCEPT !.m = "idle"]
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ (LET e == Evs(tr)[l] IN IF s.m = "idle" THEN Idle(e) ELSE Login(e)) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
