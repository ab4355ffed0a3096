----------------------------- MODULE FeedTrace -----------------------------
(* Recorded executions of the whole feed (harness/drv_stack.c). What is       *)
(* specified: the filter and queue between the input and the relay, the login *)
(* sequence on every connection, the exact messages, serial number request,   *)
(* persistence and use, deferred positions, keep-alives, talkback packets,    *)
(* and the clean state after stopping. Internal steps whose moment cannot be  *)
(* observed (filtering and queueing a frame, the effect of a talkback packet, *)
(* looking at the position ...) are silent steps; they may not be delayed:    *)
(* time only passes when none of them is possible.                            *)
(* KF = 1 admits the known finding of G02 (see DESIGN.md).                    *)
EXTENDS Feed, TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
KF == "KF" \in DOMAIN IOEnv /\ IOEnv.KF = "1"

InitFilt == [sync |-> M.sync = 1, ext |-> M.ext = 1, is |-> FALSE]
InitFd == [ph |-> "off", t |-> 0, c |-> 0, cs |-> 0, t0 |-> 0, last |-> 0, la |-> 0, out |-> "", busy |-> FALSE,
           netop |-> FALSE, held |-> <<>>, pos |-> <<>>, sv |-> <<>>, new |-> FALSE]
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [q |-> <<>>, pend |-> <<>>, filt |-> InitFilt, fd |-> InitFd,
                g |-> [has |-> FALSE, fix |-> FALSE, need |-> FALSE, pos |-> <<>>, op |-> "none", t |-> 0,
                       kind |-> "", b |-> <<>>, cs |-> 0],
                tb |-> [c |-> 0, rc |-> 0, buf |-> <<>>, todo |-> <<>>, irec |-> 0],
                ser |-> [has |-> M.serial # <<>>, val |-> M.serial, req |-> FALSE],
                disk |-> <<>>, up |-> 0, upAt |-> 0, lost |-> {}, now |-> 0, inp |-> 0, bad |-> FALSE,
                stopping |-> TRUE, kf |-> FALSE]

\* ---------------------------------------------------------- silent steps
Filt(x) ==
  LET p == x.pend[1]
      f == IF p.ft = 52 /\ p.m THEN [x.filt EXCEPT !.is = TRUE] ELSE x.filt
  IN [x EXCEPT !.filt = f, !.pend = <<>>,
               !.q = IF Passes(f, p.ft, p.p) THEN Append(@, p.b) ELSE @]
CanFilt(x) == x.pend # <<>>

\* a serial number waits for the feed to have sent its request; which a cancelled feed gives up before its exit is seen
TbBlocked(x) == ~x.stopping /\ Head(x.tb.todo).ty = TbSerial /\ Len(Head(x.tb.todo).pl) = 4 /\
                (x.fd.ph = "reqmsg" \/ (x.fd.ph = "wait" /\ x.fd.netop))
Tb(x) ==
  LET p == Head(x.tb.todo) y == [x EXCEPT !.tb.todo = Tail(@)] IN
  IF p.ty = TbFilter /\ Len(p.pl) = 2
  THEN [y EXCEPT !.filt = FilterPacket(@, p.pl[1], p.pl[2]),
                 !.tb.irec = IF Bit(p.pl[1], 1) THEN @ + 1 ELSE @]
  ELSE IF p.ty = TbSerial /\ Len(p.pl) = 4
  THEN [y EXCEPT !.ser = [has |-> TRUE, val |-> p.pl, req |-> TRUE]]
  ELSE y
CanTb(x) == x.tb.todo # <<>> /\ ~TbBlocked(x)

GApply(x) ==
  LET g == x.g
      h == CASE g.kind = "pf" -> [g EXCEPT !.pos = g.b, !.has = TRUE, !.fix = TRUE]
             [] g.kind = "p" -> [g EXCEPT !.pos = g.b, !.has = TRUE]
             [] g.kind = "fix" -> [g EXCEPT !.fix = TRUE]
             [] g.kind = "nofix" -> [g EXCEPT !.fix = FALSE]
             [] g.kind = "resetneed" -> [g EXCEPT !.need = FALSE]
             [] OTHER -> [g EXCEPT !.has = FALSE, !.fix = FALSE, !.need = FALSE]
  IN [x EXCEPT !.g = [h EXCEPT !.op = IF h.need /\ h.has /\ h.fix THEN "send" ELSE "done"]]
CanG(x) == x.g.op = "called"
GLocked(x) == x.g.op \in {"send", "sending"}

CanFeed(x) ==
  /\ ~x.fd.busy
  /\ \/ x.fd.ph \in {"serial", "flush"}
     \/ x.fd.ph = "gps" /\ ~GLocked(x)
     \/ x.fd.ph = "user" /\ M.user = <<>>
     \/ x.fd.ph = "wait" /\ x.ser.has /\ ~x.fd.netop
\* the serial number of this moment is sent, even if another one arrives before that
SerMsg(x) == [x EXCEPT !.fd.ph = "sermsg", !.fd.sv = x.ser.val, !.fd.new = x.ser.req]
Feed1(x) ==
  CASE x.fd.ph = "serial" -> IF x.ser.has THEN SerMsg(x) ELSE [x EXCEPT !.fd.ph = "reqmsg"]
    [] x.fd.ph = "wait" -> SerMsg(x)
    [] x.fd.ph = "gps" -> IF x.g.has /\ x.g.fix THEN [x EXCEPT !.fd.ph = "gpsmsg", !.fd.pos = x.g.pos]
                          ELSE [x EXCEPT !.fd.ph = "user", !.g.need = TRUE]
    [] x.fd.ph = "user" -> [x EXCEPT !.fd.ph = "flush"]
    [] x.fd.ph = "flush" -> [x EXCEPT !.fd.ph = "loop", !.fd.last = x.now,
                                      !.q = IF M.hist = 1 THEN @ ELSE <<>>]

\* may time pass up to n?
Lost(x) == x.fd.c \in x.lost
Max(a, b) == IF a > b THEN a ELSE b
TimeOk(n) ==
  \/ n = s.now
  \/ s.stopping
  \/ /\ ~CanFilt(s) /\ ~CanTb(s) /\ ~CanG(s) /\ ~CanFeed(s)
     /\ s.g.op \notin {"send", "done"}
     /\ s.tb.irec = 0
     /\ ~s.fd.busy =>
        /\ s.fd.ph = "idle" => s.up = 0
        /\ s.fd.ph \in {"sermsg", "reqmsg", "gpsmsg"} => FALSE
        /\ s.fd.ph = "user" => M.user = <<>>
        /\ s.fd.ph = "loop" => s.q = <<>> /\ n <= s.fd.last + M.to + 1
        /\ s.fd.ph = "wait" /\ ~s.fd.netop /\ ~s.kf =>
             IF Lost(s) THEN s.up # 0 => n <= Max(s.upAt, s.fd.la + 2000) + 1
             ELSE n <= s.fd.t0 + 60001

\* -------------------------------------------------------- visible events
\* the message the feed may send now: name or ""
Msg(b, n) ==
  LET ph == s.fd.ph IN
  CASE ph = "idle" \/ (ph = "wait" /\ (Lost(s) \/ s.kf)) -> IF b = MsgDev(M.dev, M.ver) THEN "dev" ELSE ""
    [] ph = "sermsg" -> IF b = MsgSerial(s.fd.sv) /\ (s.fd.new => s.disk = s.fd.sv) THEN "ser" ELSE ""
    [] ph = "reqmsg" -> IF b = MsgRequest THEN "req" ELSE ""
    [] ph = "gpsmsg" -> IF b = MsgGps(s.fd.pos) THEN "gps" ELSE ""
    [] ph = "user" -> IF M.user # <<>> /\ b = MsgUser(M.user) THEN "user" ELSE ""
    [] ph = "loop" -> IF s.q # <<>> THEN (IF b = Head(s.q) THEN "frame"
                                          ELSE "")
                      ELSE IF b = MsgKeepAlive /\ n >= s.fd.last + M.to /\ n <= s.fd.last + M.to + 1
                      THEN "ka" ELSE ""
    [] OTHER -> ""
After(out) == CASE out = "dev" -> "serial" [] out = "ser" -> "gps" [] out = "req" -> "wait"
                [] out = "gps" -> "user" [] out = "user" -> "flush" [] OTHER -> "loop"

IsG(t) == s.g.op # "none" /\ s.g.t = t
IsFd(t) == s.fd.t = t

SendCall(e) ==
  IF IsG(e.t) THEN (IF s.g.op = "send" /\ e.b = MsgGps(s.g.pos)
                    THEN {[s EXCEPT !.g.op = "sending", !.g.cs = 0]} ELSE {})
  ELSE IF s.fd.busy \/ (s.fd.t # 0 /\ s.fd.t # e.t) THEN {}
  ELSE LET m == Msg(e.b, e.n) IN
       IF m = "" THEN {}
       ELSE {[s EXCEPT !.fd.t = e.t, !.fd.busy = TRUE, !.fd.out = m, !.fd.cs = 0,
                       !.fd.held = IF m = "frame" THEN <<Head(s.q)>> ELSE <<>>,
                       !.q = IF m = "frame" THEN Tail(@) ELSE @]}
GLogged(c) == c = s.fd.c /\ s.fd.ph \in {"user", "flush", "loop"}
SendRet(e) ==
  IF IsG(e.t) THEN
    (IF s.g.op # "sending" THEN {}
     ELSE IF e.rc = 1
     THEN (IF KF \/ GLogged(s.g.cs)
           THEN {[s EXCEPT !.g.op = "done", !.g.need = FALSE,
                           !.kf = @ \/ ~GLogged(s.g.cs)]} ELSE {})
     ELSE {[s EXCEPT !.g.op = "done", !.g.need = TRUE, !.kf = KF]})
  ELSE IF ~s.fd.busy \/ ~IsFd(e.t) THEN {}
  ELSE IF e.rc = 1
  THEN (IF s.fd.cs # 0 /\ (s.fd.out = "dev" \/ s.fd.cs = s.fd.c \/ s.kf)
        THEN {[s EXCEPT !.fd.busy = FALSE, !.fd.c = s.fd.cs, !.fd.ph = After(s.fd.out), !.fd.held = <<>>,
                        !.fd.last = e.n, !.fd.t0 = e.n]} ELSE {})
  ELSE {[s EXCEPT !.fd.busy = FALSE, !.fd.ph = "idle", !.q = s.fd.held \o @, !.fd.held = <<>>]}
Call(e) ==
  CASE e.op = "send" -> SendCall(e)
    [] e.op \in {"check", "force"} -> IF IsFd(e.t) THEN {[s EXCEPT !.fd.netop = TRUE]} ELSE {s}
    [] e.op = "recv" -> IF s.tb.todo = <<>> /\ s.tb.irec = 0 THEN {s} ELSE {}
    [] OTHER -> {s}
Ret(e) ==
  CASE e.op = "send" -> SendRet(e)
    [] e.op \in {"check", "force"} -> IF IsFd(e.t) THEN {[s EXCEPT !.fd.netop = FALSE]} ELSE {s}
    [] e.op = "recv" ->
         IF e.rc <= 0 THEN {s}
         ELSE LET p == TbParse((IF s.tb.c = s.tb.rc THEN s.tb.buf ELSE <<>>) \o e.b, <<>>)
              IN {[s EXCEPT !.tb.c = s.tb.rc, !.tb.buf = p.rest, !.tb.todo = @ \o p.todo]}
    [] OTHER -> {s}

Shutdown(e) ==
  IF e.c <= 0 THEN {s}
  ELSE LET first == e.c \notin s.lost IN
       IF IsFd(e.t) /\ s.fd.ph = "wait" /\ ~s.fd.busy /\ e.c = s.fd.c /\ first /\ ~s.kf /\ ~s.stopping
          /\ ~(e.n >= s.fd.t0 + 60000 /\ e.n <= s.fd.t0 + 60001)
       THEN {}
       ELSE {[s EXCEPT !.lost = @ \cup {e.c}, !.up = IF @ = e.c THEN 0 ELSE @,
                       !.fd.la = IF e.c = s.fd.c /\ first THEN e.n ELSE @]}

Step(e) ==
  CASE e.e = "c" -> Call(e)
    [] e.e = "r" -> Ret(e)
    [] e.e = "conn" -> IF e.rc = 0 THEN {[s EXCEPT !.up = e.c, !.upAt = e.n]} ELSE {s}
    [] e.e = "send" -> IF e.rc <= 0 THEN {s}
                       ELSE IF IsG(e.t) THEN {[s EXCEPT !.g.cs = e.c]}
                       ELSE {[s EXCEPT !.fd.cs = e.c]}
    [] e.e = "recv" -> {[s EXCEPT !.tb.rc = e.c]}
    [] e.e = "shutdown" -> Shutdown(e)
    [] e.e = "disk" -> {[s EXCEPT !.disk = e.v]}
    [] e.e = "g" -> {[s EXCEPT !.g.op = "called", !.g.t = e.t, !.g.kind = e.op, !.g.b = e.b]}
    [] e.e = "gr" -> IF s.g.op = "done" THEN {[s EXCEPT !.g.op = "none"]} ELSE {}
    [] e.e = "icon" -> IF e.k = 1 /\ s.inp = 0
                       THEN {[s EXCEPT !.inp = 1, !.bad = FALSE, !.filt.is = FALSE]} ELSE {}
    [] e.e = "idis" -> IF e.k = 0 /\ s.inp = 1 /\ s.pend = <<>> THEN {[s EXCEPT !.inp = 0]} ELSE {}
    [] e.e = "iget" -> IF s.inp = 1 /\ ~s.bad /\ s.pend = <<>> THEN {s} ELSE {}
    [] e.e = "in" -> IF e.ok = 0 THEN {[s EXCEPT !.bad = TRUE]}
                     ELSE {[s EXCEPT !.pend = <<[ft |-> e.ft, m |-> e.m = 1, p |-> e.p, b |-> e.b]>>]}
    [] e.e = "irec" -> IF s.tb.irec > 0 THEN {[s EXCEPT !.tb.irec = @ - 1]} ELSE {}
    [] e.e = "starting" -> {[s EXCEPT !.fd = [InitFd EXCEPT !.ph = "idle"], !.stopping = FALSE, !.up = 0,
                               !.tb = [c |-> 0, rc |-> 0, buf |-> <<>>, todo |-> <<>>, irec |-> 0]]}
    [] e.e \in {"start", "init", "cfg"} -> IF e.ok = 1 THEN {s} ELSE {}
    [] e.e = "stopping" -> {[s EXCEPT !.stopping = TRUE]}
    [] e.e = "cancel" -> IF s.stopping THEN {s} ELSE {}
    [] e.e = "exit" -> IF ~s.stopping /\ ~IsG(e.t) /\ e.t # s.g.t THEN {}
                       ELSE IF IsFd(e.t)
                       THEN {[s EXCEPT !.q = s.fd.held \o @, !.fd = [InitFd EXCEPT !.ph = "dead"]]} ELSE {s}
    [] e.e = "stopped" -> IF e.live = 0 /\ e.locks = 0 /\ e.open = 0 /\ e.gai = 0 /\ e.in = 0
                             /\ s.pend = <<>> /\ s.tb.todo = <<>> /\ s.tb.irec = 0 /\ s.fd.held = <<>>
                          THEN {s} ELSE {}
    [] e.e = "drain" -> IF e.q = Len(s.q) /\ e.p = M.stat - Len(s.q) THEN {s} ELSE {}
    [] e.e = "df" -> IF s.q # <<>> /\ e.b = Head(s.q) THEN {[s EXCEPT !.q = Tail(@)]} ELSE {}
    [] e.e = "drained" -> IF e.q = 0 /\ s.q = <<>> /\ e.p = M.stat /\ e.d = 0 THEN {s} ELSE {}
    [] e.e = "restart" -> {[s EXCEPT !.filt = InitFilt,
                              !.ser = IF M.serial # <<>> THEN [has |-> TRUE, val |-> M.serial, req |-> FALSE]
                                      ELSE [has |-> s.disk # <<>>, val |-> s.disk, req |-> FALSE]]}
    [] e.e = "emerg" -> IF M.badfs = 1 /\ s.fd.ph = "sermsg" /\ s.fd.new THEN {s} ELSE {}
    [] e.e \in {"fatal", "sigpipe", "badfreeaddrinfo", "toomanysockets", "nodir"} -> {}
    [] OTHER -> {s}

Silent ==
  /\ l <= NEv(tr)
  /\ \/ CanFilt(s) /\ s' = Filt(s)
     \/ CanTb(s) /\ s' = Tb(s)
     \/ CanG(s) /\ s' = GApply(s)
     \/ CanFeed(s) /\ s' = Feed1(s)
  /\ UNCHANGED <<tr, l>>
Visible ==
  /\ l <= NEv(tr) /\ TimeOk(Evs(tr)[l].n)
  /\ l' = l + 1 /\ tr' = tr
  /\ \E y \in Step(Evs(tr)[l]) : s' = [y EXCEPT !.now = Evs(tr)[l].n]
  /\ Accept(tr, l')
Next == Silent \/ Visible
Spec == Init /\ [][Next]_vars
=============================================================================
