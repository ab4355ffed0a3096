------------------------------ MODULE NetTrace ------------------------------
(* Recorded executions of core/network.c (with util/net_common) against the  *)
(* promises of Net.tla: calls and results of the API, the system calls made, *)
(* statistics at quiescent moments. Used for N01, N02, N03 and N06.          *)
EXTENDS Net, TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
None == [o |-> "none"]
NoCon == [ph |-> "off", since |-> 0, left |-> {}, sf |-> 0, c |-> 0, ct |-> 0, t |-> 0]

Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [x |-> InitNet, con |-> NoCon, op |-> << >>, cancelled |-> {},
                att |-> 0, dis |-> 0, bs |-> 0, br |-> 0, onl |-> 0, upAt |-> 0]

\* functions on a record of pending operations, keyed by thread
OpOf(t) == IF t \in DOMAIN s.op THEN s.op[t] ELSE None
SetOp(y, t, o) == [y EXCEPT !.op = [k \in DOMAIN y.op \cup {t} |-> IF k = t THEN o ELSE y.op[k]]]
DelOp(y, t) == [y EXCEPT !.op = [k \in DOMAIN y.op \ {t} |-> y.op[k]]]
DirOf(o) == IF o.o \in {"send", "force", "check"} THEN "s" ELSE "r"

UpS(x) == Up(x) /\ x.bind.s = x.cur
\* remember for every pending operation whether the condition it reports
\* has been true / false since it was called
Touch(y) ==
  [y EXCEPT !.op = [k \in DOMAIN y.op |->
     IF y.op[k].o = "none" THEN y.op[k]
     ELSE [y.op[k] EXCEPT !.ok = @ \/ (IF y.op[k].o = "check" THEN UpS(y.x) ELSE Up(y.x)),
                          !.no = @ \/ ~UpS(y.x)]]]

Sec(n) == n \div 1000
Lose(y, n) == IF y.x.lost /\ ~s.x.lost
              THEN [y EXCEPT !.con.ph = "lost", !.con.since = n, !.dis = @ + 1,
                             !.onl = @ + Sec(n) - Sec(y.upAt)]
              ELSE y

Known(k) == {a \in 1..k : M.fams[a] # 0}
RoundOver(c) == c.ph = "round" /\ c.c = 0 /\ Cardinality(c.left) <= c.sf

\* ------------------------------------------------------------- connector
Gai(e) ==
  LET c == s.con
      start == [c EXCEPT !.ph = "round", !.since = e.n, !.t = e.t, !.sf = 0, !.c = 0,
                         !.left = IF e.rc = 0 THEN Known(e.k) ELSE {}]
      y == [s EXCEPT !.con = start, !.att = @ + 1]
  IN IF e.host # M.host \/ c.t \notin {0, e.t} THEN {}
     ELSE IF c.ph = "start" \/ c.ph = "lost" THEN (IF e.n = c.since THEN {y} ELSE {})
     ELSE IF RoundOver(c) /\ e.n = c.since + RoundPause THEN {[y EXCEPT !.dis = @ + 1]}
     ELSE {}
Sock(e) ==
  LET c == s.con IN
  IF c.ph # "round" \/ c.t # e.t \/ c.c # 0 \/ Cardinality(c.left) <= c.sf THEN {}
  ELSE IF e.c = 0 THEN {[s EXCEPT !.con.sf = @ + 1, !.con.since = e.n]}
  ELSE {[s EXCEPT !.con.c = e.c, !.con.ct = e.fam, !.con.since = e.n]}
Conn(e) ==
  LET c == s.con IN
  IF c.ph # "round" \/ c.t # e.t \/ e.a \notin c.left \/ e.port # M.port \/ e.fam # M.fams[e.a] THEN {}
  ELSE IF e.c = -1 THEN (IF c.c = 0 /\ c.sf > 0
       THEN {[s EXCEPT !.con.left = @ \ {e.a}, !.con.sf = @ - 1, !.con.since = e.n]} ELSE {})
  ELSE IF e.c # c.c \/ e.fam # c.ct THEN {}
  ELSE IF e.rc # 0 THEN {[s EXCEPT !.con.left = @ \ {e.a}, !.con.since = e.n, !.con.ct = -1]}
  ELSE IF CanEstablish(s.x, e.c)
  THEN {[s EXCEPT !.x = Established(@, e.c), !.con.ph = "up", !.con.c = 0, !.upAt = e.n]}
  ELSE {}

\* ------------------------------------------------------------- transfers
Send(e) ==
  LET o == OpOf(e.t) IN
  IF o.o # "send" \/ o.fail \/ o.off >= Len(o.b) \/ e.l < 1 \/ e.l > Len(o.b) - o.off THEN {}
  ELSE IF e.c = -1 THEN (IF o.c = 0 THEN {SetOp(s, e.t, [o EXCEPT !.fail = TRUE])} ELSE {})
  ELSE IF e.c = 0 THEN {}
  ELSE IF o.c \notin {0, e.c} \/ ~MayUse(s.x, "s", e.c) THEN {}
  \* (a thread which is being stopped may leave its message unfinished)
  ELSE IF \E k \in DOMAIN s.op : k # e.t /\ k \notin s.cancelled /\ s.op[k].o = "send" /\ s.op[k].c = e.c
             /\ ~s.op[k].fail /\ s.op[k].off > 0 /\ s.op[k].off < Len(s.op[k].b) THEN {}
  ELSE IF e.rc <= 0 THEN {SetOp(s, e.t, [o EXCEPT !.fail = TRUE, !.c = e.c])}
  ELSE IF e.b = SubSeq(o.b, o.off + 1, o.off + e.rc)
  THEN {SetOp(s, e.t, [o EXCEPT !.off = @ + e.rc, !.c = e.c])} ELSE {}
Recv(e) ==
  LET o == OpOf(e.t) IN
  IF o.o # "recv" \/ Len(o.got) > 0 \/ (o.fail /\ s.x.bind.r = o.c) THEN {}
  ELSE IF e.c = -1 THEN {SetOp(s, e.t, [o EXCEPT !.fail = TRUE, !.c = 0])}
  ELSE IF ~MayUse(s.x, "r", e.c) \/ e.l > o.len \/ e.l < 1 THEN {}
  ELSE IF e.rc > 0 THEN {SetOp(s, e.t, [o EXCEPT !.got = e.b, !.c = e.c])}
  ELSE {SetOp(s, e.t, [o EXCEPT !.fail = TRUE, !.c = e.c])}

Stopping == s.con.t \in s.cancelled
ShutEv(e) ==
  LET o == OpOf(e.t) d == DirOf(o) IN
  IF e.c = -1 THEN {s}
  ELSE IF e.c = 0 \/ e.how # 2 THEN {}
  ELSE IF e.t = s.con.t THEN
       (IF Stopping /\ e.c \in s.x.open THEN {[s EXCEPT !.x.shut = @ \cup {e.c}]} ELSE {})
  ELSE IF o.o \in {"send", "recv", "force", "check"} /\ (o.o \in {"send", "recv"} => o.fail)
          /\ CanShut(s.x, d, e.c)
  THEN {Touch(Lose([s EXCEPT !.x = Shut(@, d, e.c)], e.n))}
  ELSE {}
CloseEv(e) ==
  LET o == OpOf(e.t) d == DirOf(o) IN
  IF e.c = -1 THEN {s}
  ELSE IF e.c = 0 THEN {}
  ELSE IF e.t = s.con.t THEN
       (IF e.c = s.con.c /\ s.con.ph = "round" /\ (s.con.ct = -1 \/ Stopping)
        THEN {[s EXCEPT !.con.c = 0, !.con.since = e.n]}
        ELSE IF Stopping /\ e.c \in s.x.open /\ e.c \in s.x.shut
        THEN {[s EXCEPT !.x.open = @ \ {e.c}, !.x.shut = @ \ {e.c},
                        !.x.bind = [k \in {"s", "r"} |-> IF @[k] = e.c THEN 0 ELSE @[k]],
                        !.x.cur = IF @ = e.c THEN 0 ELSE @]}
        ELSE {})
  ELSE IF o.o \in {"send", "recv", "force", "check"} /\ (o.o \in {"send", "recv"} => o.fail)
          /\ CanClose(s.x, d, e.c)
  THEN {Touch([s EXCEPT !.x = Close(@, d, e.c)])}
  ELSE {}

\* ---------------------------------------------------------------- calls
CallEv(e) ==
  IF OpOf(e.t).o # "none" THEN {}
  ELSE {SetOp(s, e.t, [o |-> e.op, b |-> IF e.op = "send" THEN e.b ELSE << >>, off |-> 0,
         c |-> 0, fail |-> FALSE, got |-> << >>, len |-> IF e.op = "recv" THEN e.l ELSE 0,
         ok |-> IF e.op = "check" THEN UpS(s.x) ELSE Up(s.x), no |-> ~UpS(s.x),
         was |-> s.x.bind.s])}
RetEv(e) ==
  LET o == OpOf(e.t) y == DelOp(s, e.t) IN
  IF o.o # e.op THEN {}
  ELSE IF e.op = "send" THEN
     IF e.rc = 1 THEN (IF ~o.fail /\ o.off = Len(o.b) THEN {[y EXCEPT !.bs = @ + Len(o.b)]} ELSE {})
     ELSE (IF o.fail /\ (o.c = 0 \/ s.x.bind.s # o.c \/ Stopping) THEN {y} ELSE {})
  ELSE IF e.op = "recv" THEN
     IF e.rc > 0 THEN (IF e.b = o.got THEN {[y EXCEPT !.br = @ + Len(o.got)]} ELSE {})
     ELSE (IF o.fail /\ o.got = << >> /\ (o.c = 0 \/ s.x.bind.r # o.c \/ Stopping) THEN {y} ELSE {})
  ELSE IF e.op = "wait" THEN (IF o.ok THEN {y} ELSE {})
  ELSE IF e.op = "force" THEN (IF o.was = 0 \/ s.x.bind.s # o.was \/ Stopping THEN {y} ELSE {})
  ELSE IF e.op = "check" THEN
     IF e.rc = 1 THEN (IF o.ok THEN {y} ELSE {})
     ELSE (IF o.no THEN {y} ELSE {})
  ELSE {}

StatsOf(n) ==
  LET ro == RoundOver(s.con) IN
  <<s.att, s.dis + (IF ro THEN 1 ELSE 0), s.bs, s.br, IF Up(s.x) THEN 1 ELSE 0,
    s.onl + IF Up(s.x) THEN Sec(n) - Sec(s.upAt) ELSE 0>>
Quiet(e) ==
  /\ e.st = StatsOf(e.n)
  /\ s.con.ph \notin {"start", "lost"}
  /\ Up(s.x) => \A k \in DOMAIN s.op : s.op[k].o \notin {"wait", "force", "check"}

Step(e) ==
  CASE e.e = "gai"  -> Gai(e)
    [] e.e = "sock" -> Sock(e)
    [] e.e = "conn" -> {Touch(y) : y \in Conn(e)}
    [] e.e = "send" -> Send(e)
    [] e.e = "recv" -> Recv(e)
    [] e.e = "shutdown" -> ShutEv(e)
    [] e.e = "close" -> CloseEv(e)
    [] e.e = "c" -> IF e.op \in {"send", "recv", "wait", "force", "check"} THEN CallEv(e) ELSE {s}
    [] e.e = "r" -> IF e.op \in {"send", "recv", "wait", "force", "check"} THEN RetEv(e) ELSE {s}
    [] e.e = "starting" -> {[s EXCEPT !.con = [NoCon EXCEPT !.ph = "start", !.since = e.n], !.x = InitNet,
                               !.att = 0, !.dis = 0, !.bs = 0, !.br = 0, !.onl = 0, !.cancelled = {}]}
    [] e.e = "start" -> IF e.ok = 1 THEN {s} ELSE {}
    [] e.e = "quiet" -> IF Quiet(e) THEN {s} ELSE {}
    [] e.e = "conv" -> IF e.ok = 1 => (Up(s.x) /\ s.x.cur = e.c /\ s.x.bind.s = e.c /\ s.x.bind.r = e.c)
                       THEN {s} ELSE {}
    [] e.e = "cancel" -> {[s EXCEPT !.cancelled = @ \cup {e.th}]}
    [] e.e = "exit" -> {DelOp(s, e.t)}
    [] e.e = "stopped" -> IF /\ (Has(e, "dead") => e.dead = 1) /\ e.live = 0 /\ e.locks = 0 /\ e.open = 0 /\ e.gai = 0
                             /\ s.x.open = {} /\ s.con.c = 0
                          THEN {s} ELSE {}
    [] e.e = "emerg" -> IF Has(M, "badfs") /\ M.badfs = 1 THEN {s} ELSE {}
    [] e.e \in {"fatal", "sigpipe", "badfreeaddrinfo", "toomanysockets", "cfgfailed"} -> {}
    [] OTHER -> {s}

Sane(y) == y.con.t \in y.cancelled \/ y.con.ph = "off" \/ NetInv(y.x)
Next == /\ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr
        /\ s' \in {y \in Step(Evs(tr)[l]) : Sane(y)}
        /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
