------------------------------ MODULE InTrace -------------------------------
(* Recorded executions of the inputs (harness/drv_input.c): the receiving loop   *)
(* with the Radarcape reader, the loop of the GPS receiver, each by network or   *)
(* by UART. The device is connected, set up as configured, read and evaluated;   *)
(* failures lead to the next attempt at once or after ten seconds, never to the  *)
(* end of the loop; what was opened is closed.                                   *)
EXTENDS TraceBase
PL(t) == CASE t = 49 -> 2 [] t = 50 -> 7 [] OTHER -> 14
INSTANCE Rc WITH HdrLen <- 7, PayLen <- PL
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
T == INSTANCE Tr WITH Max <- 1024
Pause == 10000
IsRc == M.kind = "rc"
Uart == M.dev = "uart"
RangeOf(q) == {q[i] : i \in 1..Len(q)}

\* ph: "idle"; "try" an attempt is due at the time since; "fail" the attempt failed at since; "round" addresses are tried;
\*     "dev" the device is open; "run" it is read; "stop"
\* c: the descriptor (0: none); oth: descriptors of other parts of the program
\* left: addresses not tried yet; set: the attributes of the terminal; tx: what was sent; o: options which were set
\* ext: the possible values of the setting; dec: the decoder; f: the filter; q: what has to come out before the next read
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [ph |-> "idle", since |-> 0, c |-> 0, oth |-> {}, left |-> {}, sf |-> 0, set |-> <<>>, tx |-> <<>>, o |-> <<>>,
                ext |-> {M.ext = 1}, dec |-> IF IsRc THEN RcInit ELSE T!TrInit, fresh |-> FALSE,
                f |-> [sync |-> M.sync = 1, ext |-> M.ext = 1, is |-> FALSE], q |-> <<>>, main |-> 0, other |-> 0, held |-> FALSE,
                mayAbort |-> FALSE, can |-> FALSE, werr |-> FALSE]

Idle == \A i \in 1..Len(s.q) : s.q[i].opt
Now(e) == \/ s.ph = "try" /\ e.n = s.since
          \/ s.ph = "fail" /\ e.n = s.since + Pause
          \* set up went wrong: at once or after a pause
          \/ s.ph = "again" /\ e.n \in {s.since, s.since + Pause}
Fail(e) == [s EXCEPT !.ph = "fail", !.since = e.n]
Conn0(x) == [x EXCEPT !.set = <<>>, !.tx = <<>>, !.o = <<>>, !.q = <<>>, !.fresh = FALSE, !.werr = FALSE,
                      !.dec = IF IsRc THEN RcInit ELSE T!TrInit, !.f.is = FALSE]

\* ---- network
Known == {a \in 1..Len(M.fams) : M.fams[a] # 0}
Over(x, e) == IF x.left = {} \/ Cardinality(x.left) <= x.sf THEN [x EXCEPT !.ph = "fail", !.since = e.n] ELSE [x EXCEPT !.since = e.n]
Gai(e) ==
  IF ~(~Uart /\ Now(e) /\ s.c = 0 /\ e.host = M.host) THEN {}
  ELSE IF e.rc # 0 THEN {Fail(e)}
  ELSE {Over([Conn0(s) EXCEPT !.ph = "round", !.left = {a \in Known : a <= e.k}, !.sf = 0], e)}
Sock(e) ==
  IF ~(s.ph = "round" /\ s.c = 0) THEN {}
  \* no socket: an address is given up
  ELSE IF e.c = 0 THEN {Over([s EXCEPT !.sf = @ + 1], e)} ELSE {[s EXCEPT !.c = e.c]}
Con(e) ==
  IF e.c = -1 THEN (IF s.sf > 0 THEN {s} ELSE {})
  ELSE IF ~(s.ph = "round" /\ e.c = s.c /\ e.a \in s.left /\ e.fam = M.fams[e.a] /\ e.port = M.port) THEN {}
  ELSE IF e.rc = 0 THEN {[s EXCEPT !.ph = "dev"]}
  ELSE {Over([s EXCEPT !.left = @ \ {e.a}], e)}

\* ---- terminal
Open(e) ==
  IF ~(Uart /\ Now(e) /\ s.c = 0) THEN {}
  ELSE IF e.c = 0 THEN {Fail(e)} ELSE {[Conn0(s) EXCEPT !.ph = "dev", !.c = e.c]}
Tty(e) ==
  IF ~(Uart /\ s.ph = "dev" /\ e.c = s.c) THEN {}
  ELSE IF e.rc # 0 THEN {[s EXCEPT !.ph = "fail", !.since = e.n]}
  ELSE IF e.e = "tget" THEN {s}
  ELSE {[s EXCEPT !.set = e, !.tx = Append(@, 0 - e.sp)]}

\* ---- configuration
SetSpeed == <<16, 188, 0, 11, 11, 3, 1, 0, 0, 2, 2, 0, 16, 3>>
SetUtc == <<16, 53, 4, 0, 1, 8, 16, 3>>
Up(x) == IF x \in 97..122 THEN x - 32 ELSE x
\* what the device was sent: commands of three bytes, however they were written
OptsOk == Len(s.o) % 3 = 0 /\ \A i \in 1..(Len(s.o) \div 3) : s.o[3 * i - 2] = 26 /\ s.o[3 * i - 1] = 49
OptVal(k) == LET is == {i \in 1..Len(s.o) : i % 3 = 0 /\ Up(s.o[i]) = k} IN IF is = {} THEN 0 ELSE s.o[CHOOSE i \in is : \A j \in is : j <= i]
Pick(b, x, y) == IF b THEN x ELSE y
\* the device did not take the last change: it is not asked again before it is lost
ExtOk == s.werr \/ OptVal(68) \in {Pick(x, 68, 100) : x \in s.ext}
RcConf ==
  /\ s.set # <<>> /\ s.set.sp = 3500000 /\ s.set.same = 1 /\ s.set.par = 0 /\ s.set.hs = 1 /\ s.set.raw = 1 /\ s.set.cs8 = 1
  /\ OptsOk /\ OptVal(67) = 67 /\ ExtOk /\ OptVal(69) = 69 /\ OptVal(70) = Pick(M.crc = 1, 102, 70) /\ OptVal(71) = 71
  /\ OptVal(72) = 72 /\ OptVal(73) = Pick(M.fec = 1, 105, 73) /\ OptVal(74) = 106 /\ OptVal(89) = 89 /\ OptVal(82) = 82
TrConf ==
  /\ s.set # <<>> /\ s.set.same = 1 /\ s.set.par = 1 /\ s.set.raw = 1 /\ s.set.cs8 = 1
  /\ s.tx = <<-9600>> \o SetSpeed \o <<-115200>> \o SetSpeed \o SetUtc
  /\ s.fresh
Configured == IF ~Uart THEN (IsRc \/ s.fresh) ELSE IF IsRc THEN RcConf ELSE TrConf
Send(e) ==
  IF e.c \in s.oth THEN {}                          \* never on a descriptor of another part
  ELSE IF ~Uart THEN {}                             \* nothing to be set up
  ELSE IF e.t # s.main THEN                         \* settings changed
    (IF IsRc /\ e.t = s.other
     THEN (IF e.c = s.c /\ e.c > 0 THEN (IF e.rc = e.l THEN {[s EXCEPT !.o = @ \o e.b, !.werr = FALSE]} ELSE {[s EXCEPT !.werr = TRUE]})
           ELSE IF e.rc = -1 THEN {s} ELSE {})
     ELSE {})
  ELSE IF ~(s.ph = "dev" /\ e.c = s.c) THEN {}
  ELSE LET b == IF e.rc <= 0 THEN <<>> ELSE SubSeq(e.b, 1, e.rc)
           x == IF IsRc THEN [s EXCEPT !.o = @ \o b] ELSE [s EXCEPT !.tx = @ \o b]
       \* a write which fails ends the attempt, or the rest is written again
       IN (IF e.rc # e.l THEN {[s EXCEPT !.ph = "again", !.since = e.n]} ELSE {}) \cup {x}

\* ---- reading
RECURSIVE Eval(_, _, _)
\* the frames which pass the filter, and its state behind them
Eval(ks, f, out) ==
  IF ks = <<>> THEN [f |-> f, out |-> out]
  ELSE LET k == Head(ks)
           g == IF k.ty = 52 /\ \E i \in 1..6 : k.d[i] # 0 THEN [f EXCEPT !.is = TRUE] ELSE f
           df == k.d[8] \div 8
           \* with settings changing at any moment, other frames may pass or not
           x == IF M.set = 1 THEN FALSE ELSE g.ext
       IN Eval(Tail(ks), g, IF Passes([g EXCEPT !.ext = x], k.ty, k.d[8]) THEN Append(out, [d |-> k.raw, opt |-> M.set = 1 /\ df \notin {17, 18}]) ELSE out)
RECURSIVE Alts(_)
Alts(ks) == IF ks = <<>> THEN <<>>
  ELSE (IF T!IsPos(Head(ks)) /\ T!PosGood(Head(ks)) THEN <<[d |-> T!Alt(Head(ks)), opt |-> FALSE]>> ELSE <<>>) \o Alts(Tail(ks))
Data(x, b) ==
  IF IsRc THEN LET p == RcParse(x.dec, b) r == Eval(p.out, x.f, <<>>) IN
               [x EXCEPT !.dec = [p EXCEPT !.out = <<>>], !.f = r.f, !.q = r.out]
  ELSE LET p == T!TrParse(x.dec, b) IN [x EXCEPT !.dec = [p EXCEPT !.out = <<>>], !.q = Alts(p.out)]
Recv(e) ==
  IF ~(s.ph \in {"dev", "run"} /\ e.c = s.c /\ e.t = s.main /\ Idle /\ e.l > 0) THEN {}
  ELSE IF s.ph = "dev" /\ e.rc # -1 /\ ~Configured THEN {}
  ELSE IF IsRc /\ Uart /\ e.rc # -1 /\ ~RcConf THEN {} \* whatever is read was configured
  ELSE LET x == [s EXCEPT !.ph = "run"] IN
       IF e.rc = -2 THEN {x}
       ELSE IF e.rc > 0 THEN {Data(x, e.b)}
       ELSE {[x EXCEPT !.ph = "try", !.since = e.n, !.mayAbort = IsRc]}

Step(e) ==
  CASE e.e = "start" -> IF s.ph # "idle" THEN {} ELSE {[s EXCEPT !.ph = "try", !.since = e.n, !.main = 0, !.other = 0, !.f.is = FALSE, !.can = FALSE, !.q = <<>>]}
    [] e.e = "gai"  -> {[x EXCEPT !.main = e.t] : x \in (IF s.main \in {0, e.t} THEN Gai(e) ELSE {})}
    [] e.e = "open" -> {[x EXCEPT !.main = e.t] : x \in (IF s.main \in {0, e.t} THEN Open(e) ELSE {})}
    [] e.e = "sock" -> IF e.t = s.main /\ s.main # 0 THEN Sock(e) ELSE IF e.c = 0 THEN {s} ELSE {[s EXCEPT !.oth = @ \cup {e.c}]}
    [] e.e = "conn" -> IF e.t = s.main /\ s.main # 0 THEN Con(e) ELSE IF e.c \in s.oth THEN {s} ELSE {}
    [] e.e \in {"tget", "tset"} -> IF e.t = s.main THEN Tty(e) ELSE {}
    [] e.e = "send" -> Send(e)
    [] e.e = "recvw" -> IF s.ph \in {"dev", "run"} /\ e.c = s.c /\ Idle /\ Configured THEN {s} ELSE {}
    [] e.e = "poll" -> IF s.ph = "run" /\ e.c = s.c /\ e.rc = 0 /\ Idle THEN {s} ELSE {}
    [] e.e = "recv" -> Recv(e)
    [] e.e = "shutdown" -> IF e.c = s.c /\ ~Uart THEN {s} ELSE {}
    [] e.e = "close" ->
         IF e.c = -1 THEN (IF s.sf > 0 THEN {s} ELSE {})
         ELSE IF e.c \in s.oth THEN (IF e.t # s.main THEN {[s EXCEPT !.oth = @ \ {e.c}]} ELSE {})
         \* an address which could not be reached, a device which failed, or the end
         ELSE IF e.c = s.c /\ e.c > 0 /\ e.t = s.main /\ (s.can \/ s.ph \in {"round", "fail", "again", "try"})
         THEN {[s EXCEPT !.c = 0]} ELSE {}
    \* settings: called, done; what comes from the device meanwhile may be either
    [] e.e = "set"  -> {[s EXCEPT !.ext = @ \cup {e.x = 1}, !.other = e.t]}
    [] e.e = "setd" -> LET x == [s EXCEPT !.ext = {e.x = 1}] IN {x}
    \* frames of the buffer
    [] e.e = "new"    -> IF e.held = 0 /\ ~s.held THEN {[s EXCEPT !.held = TRUE]} ELSE {}
    [] e.e = "commit" -> IF e.mine # 1 THEN {} ELSE {[s EXCEPT !.q = SubSeq(@, i + 1, Len(@)), !.held = FALSE] :
                           i \in {j \in 1..Len(s.q) : s.q[j].d = e.d /\ \A k \in 1..(j - 1) : s.q[k].opt}}
    [] e.e = "abort"  -> IF s.held /\ e.mine = 1 /\ (s.mayAbort \/ s.can) THEN {[s EXCEPT !.held = FALSE, !.mayAbort = FALSE]} ELSE {}
    [] e.e = "greset" -> {[s EXCEPT !.fresh = s.ph = "dev"]}
    [] e.e \in {"srv", "exit"} -> {s}
    [] e.e = "stop"   -> {s}
    [] e.e = "cancel" -> {[s EXCEPT !.can = TRUE]}
    [] e.e = "end"    -> IF e.open = 0 /\ e.gai = 0 /\ e.locks = 0 /\ e.held = 0 /\ s.c = 0
                         THEN {[s EXCEPT !.ph = "idle", !.oth = {}, !.held = FALSE, !.mayAbort = FALSE]} ELSE {}
    [] OTHER -> {}
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ s' \in Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
