------------------------------ MODULE TbTrace ------------------------------
(* Recorded executions of the talkback receiver (harness/drv_tb.c): framing  *)
(* of packets, dispatching, the filter packet and the processes started by    *)
(* the packet processors of the radarcape.                                    *)
EXTENDS Feed, TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Reg(ty) == IF ty < 6 THEN M.reg[ty + 1] ELSE -1
Systemctl == "/usr/bin/systemctl"
Addr(p) == ToString(p[1]) \o "." \o ToString(p[2]) \o "." \o ToString(p[3]) \o "." \o ToString(p[4])
           \o ":" \o ToString(p[5] * 256 + p[6])
Rcc(p) == <<"/usr/bin/rcc", "-t", ":22", "-r", Addr(p), "-n">>
Restart == IF M.white = 1 THEN <<M.prog>> ELSE <<M.prog, "--black">>
Reboot == <<Systemctl, "reboot">>
Pacman == <<"/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc">>
Reload == <<Systemctl, "daemon-reload">>
RestartSvc == <<Systemctl, "restart", "openskyd">>

Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [up |-> FALSE, buf |-> <<>>, todo |-> <<>>, f |-> [sync |-> M.sync = 1, ext |-> M.ext = 1, is |-> FALSE],
                pr |-> <<>>]
\* processes: pr[p] is a record; entry 0 is not there unless the daemon itself has to execute something
Known(x, p) == p \in DOMAIN x.pr
Set(x, p, r) == [x EXCEPT !.pr = [q \in DOMAIN x.pr \cup {p} |-> IF q = p THEN r ELSE x.pr[q]]]
Done == [k |-> "done"]
Idle(x) == \A p \in DOMAIN x.pr : x.pr[p] = Done
Silent(x, pk) == \* packets without any effect
  \/ Reg(pk.ty) # Len(pk.pl)
  \/ pk.ty = TbFilter /\ ~Bit(pk.pl[1], 1)
AfterSilent(x, pk) ==
  IF pk.ty = TbFilter /\ Reg(pk.ty) = Len(pk.pl) THEN [x EXCEPT !.f = FilterPacket(@, pk.pl[1], pk.pl[2])] ELSE x
RECURSIVE Skip(_)
Skip(x) == IF x.todo # <<>> /\ Silent(x, Head(x.todo)) /\ Idle(x)
           THEN Skip([AfterSilent(x, Head(x.todo)) EXCEPT !.todo = Tail(@)]) ELSE x
Pop(x) == [x EXCEPT !.todo = Tail(@)]

Exec(x, e) ==
  LET r == IF Known(x, e.p) THEN x.pr[e.p] ELSE Done
      next == IF e.r = 4 THEN [k |-> "fail"] ELSE Done
  IN IF e.env # 0 \/ e.path # e.argv[1] THEN {}
     ELSE CASE r.k = "exec" /\ e.argv = r.argv -> {Set(x, e.p, next)}
            [] e.p = 0 /\ M.real = 1 /\ Idle(x) /\ x.todo # <<>> /\ Head(x.todo).ty = 1 /\ e.argv = Restart -> {Pop(x)}
            [] OTHER -> {}
Fork(x, e) ==
  LET r == IF Known(x, e.p) THEN x.pr[e.p] ELSE Done
      C(y, child) == IF e.c = 0 THEN y ELSE Set(y, e.c, child)
  IN IF e.p = 0 THEN
       IF ~Idle(x) \/ M.real = 0 \/ x.todo = <<>> THEN {}
       ELSE LET pk == Head(x.todo) IN
            CASE pk.ty = 0 -> {C(Pop(x), [k |-> "daemon", argv |-> Rcc(pk.pl)])}
              [] pk.ty = 2 -> {C(Pop(x), [k |-> "daemon", argv |-> Reboot])}
              [] pk.ty = 3 -> {C(Pop(x), [k |-> "up", pc |-> "install"])}
              [] OTHER -> {}
     ELSE IF r.k # "up" \/ r.pc \notin {"install", "reload"} THEN {}
     ELSE LET now == IF r.pc = "install" THEN Pacman ELSE Reload
              nx == IF r.pc = "install" THEN "wait" ELSE "wait2"
          IN IF e.c # 0 THEN {C(Set(x, e.p, [k |-> "up", pc |-> nx]), [k |-> "exec", argv |-> now])}
             ELSE IF r.pc = "install" THEN {Set(x, e.p, [k |-> "fail"])}
             ELSE {Set(x, e.p, [k |-> "exec", argv |-> RestartSvc])}
Wait(x, e) ==
  LET r == IF Known(x, e.p) THEN x.pr[e.p] ELSE Done
  IN CASE r.k = "up" /\ r.pc = "wait" -> {Set(x, e.p, IF e.ok = 1 THEN [k |-> "up", pc |-> "reload"] ELSE [k |-> "fail"])}
       [] r.k = "up" /\ r.pc = "wait2" -> {Set(x, e.p, [k |-> "exec", argv |-> RestartSvc])}
       [] OTHER -> {}
Step(y, e) ==
  LET x == Skip(y) IN
  CASE e.e = "conn" -> IF x.todo = <<>> /\ Idle(x) /\ ~x.up THEN {[x EXCEPT !.up = TRUE, !.buf = <<>>]} ELSE {}
    [] e.e = "probe" -> LET a == x.f.is \/ ~x.f.sync IN
                        IF x.todo = <<>> /\ Idle(x) /\ (e.a = 1) = a /\ (e.b = 1) = (a /\ ~x.f.ext) THEN {x} ELSE {}
    [] e.e = "sync" -> {[x EXCEPT !.f.is = TRUE]}
    [] e.e = "recv" ->
         IF ~x.up \/ e.max < 1 \/ x.todo # <<>> THEN {}
         ELSE IF e.r <= 0 THEN {[x EXCEPT !.up = FALSE]}
         ELSE LET r == TbParse(x.buf \o e.d, <<>>) IN {[x EXCEPT !.buf = r.rest, !.todo = r.todo]}
    [] e.e = "cb" -> IF x.todo # <<>> /\ Head(x.todo) = [ty |-> e.ty, pl |-> e.pl] /\ Reg(e.ty) = Len(e.pl)
                        /\ ~(M.real = 1 /\ e.ty \in 0..3) /\ Idle(x) THEN {Pop(x)} ELSE {}
    [] e.e = "reconf" -> IF x.todo # <<>> /\ Head(x.todo).ty = TbFilter /\ Idle(x)
                         THEN LET pk == Head(x.todo) f == FilterPacket(x.f, pk.pl[1], pk.pl[2])
                              IN IF (e.ext = 1) = f.ext THEN {[Pop(x) EXCEPT !.f = f]} ELSE {}
                         ELSE {}
    [] e.e = "fork" -> Fork(x, e)
    [] e.e = "daemon" -> IF Known(x, e.p) /\ x.pr[e.p].k = "daemon"
                         THEN {Set(x, e.p, IF e.ok = 1 THEN [k |-> "exec", argv |-> x.pr[e.p].argv] ELSE [k |-> "fail"])}
                         ELSE {}
    [] e.e = "exec" -> Exec(x, e)
    [] e.e = "wait" -> Wait(x, e)
    [] e.e = "pexit" -> IF Known(x, e.p) /\ x.pr[e.p].k = "fail" /\ e.rc # 0 THEN {Set(x, e.p, Done)} ELSE {}
    [] e.e = "over" -> IF Known(x, e.p) /\ x.pr[e.p] = Done THEN {x} ELSE {}
    [] e.e = "end" -> {x}
    [] OTHER -> {}
Next == /\ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr
        /\ s' \in Step(s, Evs(tr)[l])
        /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
