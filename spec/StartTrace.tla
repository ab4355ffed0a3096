----------------------------- MODULE StartTrace -----------------------------
(* Recorded runs of the daemons' main() (harness/drv_main.c) with random          *)
(* configuration files, arguments and failing parts.                              *)
EXTENDS TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
RcV == M.variant \in {"rc-uart", "rc-net", "rc-dummy"}
D == [c \in DOMAIN M.deps |-> {M.deps[c][i] : i \in 1..Len(M.deps[c])}]
Roots == IF M.variant = "rc-uart" THEN {"FPGA", "WD", "TB", "RELAY", "RECV", "STAT", "SERIAL", "TRIMBLE"}
         ELSE IF RcV THEN {"TB", "RELAY", "RECV", "STAT", "SERIAL", "TRIMBLE"}
         ELSE {"TB", "RELAY", "RECV", "STAT", "SERIAL"}
Opts == M.opts
C == INSTANCE Cfg
P == INSTANCE Start WITH Need <- IF RcV THEN {"type", "serial"} ELSE {"type", "user"}
\* a dump1090 feeder is told its position by the configuration
N == Len(Opts)
\* ---- options, by section and name in lower case
Ix(sec, nm) == CHOOSE i \in 1..N : C!Same(Opts[i].sec, sec) /\ C!Same(Opts[i].name, nm)
A(x) == x
BufSize == Ix(<<98, 117, 102, 102, 101, 114>>, <<115, 105, 122, 101>>)
InPort == Ix(<<105, 110, 112, 117, 116>>, <<112, 111, 114, 116>>)
Sync == Ix(<<102, 105, 108, 116, 101, 114>>, <<115, 121, 110, 99, 102, 105, 108, 116, 101, 114>>)
Enabled == <<101, 110, 97, 98, 108, 101, 100>>
StatOn == Ix(<<115, 116, 97, 116, 105, 115, 116, 105, 99, 115>>, Enabled)
TbOn == Ix(<<116, 97, 108, 107, 98, 97, 99, 107>>, Enabled)
DevType == Ix(<<100, 101, 118, 105, 99, 101>>, <<116, 121, 112, 101>>)
User == Ix(<<105, 100, 101, 110, 116>>, <<117, 115, 101, 114, 110, 97, 109, 101>>)
Gps == <<103, 112, 115>>
Lat == Ix(Gps, <<108, 97, 116, 105, 116, 117, 100, 101>>)
Lon == Ix(Gps, <<108, 111, 110, 103, 105, 116, 117, 100, 101>>)
Alt == Ix(Gps, <<97, 108, 116, 105, 116, 117, 100, 101>>)
\* ---- reading: the buffer's section repairs sizes below two
Two(t) == IF t \in {<<48>>, <<49>>} THEN <<50>> ELSE t
Fix(v) == [v EXCEPT ![BufSize] = Two(@)]
Out(v, g) == [v |-> v, g |-> g]
Read(x, b, strict) == {Out(Fix(y.v), y.g) : y \in C!Read(x.v, x.g, b, strict, TRUE, TRUE)}
Num(n) == C!DropZ([i \in 1..Len(C!Span(n, 48..57)) |-> n[i] - 48])
RECURSIVE Dir(_, _, _)
Dir(xs, fs, files) ==
  IF fs = {} THEN xs
  ELSE LET i == CHOOSE i \in fs : \A j \in fs : C!Le(Num(files[i].n), Num(files[j].n))
       IN Dir(UNION {Read(x, files[i].b, FALSE) : x \in xs}, fs \ {i}, files)
G0 == [i \in 1..N |-> 0]
Outs(e) ==
  IF RcV THEN IF e.present = 1 THEN Read(Out(C!DefV, G0), e.b, TRUE) ELSE {Out(C!DefV, G0)}
  ELSE LET x == Out([C!DefV EXCEPT ![InPort] = <<51, 48, 48, 48, 53>>, ![Sync] = <<0>>], G0)
       IN Dir(Dir({x}, 1..Len(e.var), e.var), 1..Len(e.etc), e.etc)
\* ---- checks
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 10 * Pow(k - 1)
RECURSIVE Val(_, _)
Val(d, acc) == IF d = <<>> THEN acc ELSE Val(Tail(d), acc * 10 + Head(d))
Above(d, n) == IF d[1] = 9 THEN TRUE ELSE IF d[3] >= 0 THEN Val(d[2], 0) * Pow(d[3]) > n ELSE Val(d[2], 0) > n * Pow(0 - d[3])
PosBad(x) == ~RcV /\ (x.g[Lat] = 0 \/ x.g[Lon] = 0 \/ x.g[Alt] = 0 \/ Above(x.v[Lat], 90) \/ Above(x.v[Lon], 180))
Inconsistent(x) == x.v[BufSize] = <<51>> \/ PosBad(x)
En(v) == P!Parts \ ((IF v[StatOn] = <<0>> THEN {"STAT"} ELSE {}) \cup (IF v[TbOn] = <<0>> THEN {"TB"} ELSE {}))
\* ---- what is told to the rest of the program
TypeOf(v) ==
  CASE M.variant = "rc-uart" -> 2 [] M.variant = "rc-net" -> 3 [] M.variant = "rc-dummy" -> 1
    [] M.variant = "donated" -> 6 [] M.variant = "kit" -> 7
    [] OTHER -> IF C!Same(v[DevType], <<104, 112, 116, 111, 97>>) \/ C!Same(v[DevType], <<111, 112, 101, 110, 115, 107, 121>>) THEN 8 ELSE 5
\* commands of the server: a reverse shell only for devices of the network itself
Tbs == CASE M.variant = "rc-uart" -> {<<0, 6>>, <<1, 0>>, <<2, 0>>, <<3, 0>>} [] M.variant = "donated" -> {<<0, 6>>} [] OTHER -> {}

Init == tr \in 1..NTraces /\ l = 1
        /\ s = [d |-> P!First, m |-> [e |-> ""], outs |-> {}, v |-> <<>>, g |-> <<>>, tbs |-> {}, pos |-> 0, usage |-> FALSE]
To(ds) == \E d \in ds : s' = [s EXCEPT !.d = d]
StartOver(e) == Has(e, "r") /\ e.r = 1
Step(e) ==
  CASE e.e = "main" -> /\ s.m.e = ""
                       /\ IF RcV /\ e.usage = 1 THEN s' = [s EXCEPT !.m = e, !.usage = TRUE]
                          ELSE IF ~RcV /\ e.varfile = 1 THEN s' = [s EXCEPT !.m = e, !.d.ph = "die"]
                          ELSE s' = [s EXCEPT !.m = e, !.outs = Outs(e)]
    [] s.usage -> e.e = "end" /\ e.r = 1 /\ e.file = 0 /\ s' = [s EXCEPT !.d.ph = "over", !.usage = FALSE]
    [] e.e = "chk" -> /\ \E x \in s.outs : x.v = e.v /\ x.g = e.g
                      /\ LET x == Out(e.v, e.g) IN
                         \E d \in (IF Inconsistent(x) THEN P!Bad(s.d) ELSE P!Good(s.d, En(e.v))) : s' = [s EXCEPT !.d = d, !.v = e.v, !.g = e.g, !.outs = {}]
    [] e.e = "emerg" -> IF s.d.ph = "cfg" THEN (\E x \in s.outs : PosBad(x)) /\ s' = [s EXCEPT !.d.ph = "dead"]
                        ELSE To(P!Emerg(s.d))
    [] e.e = "type" -> \/ e.ty = TypeOf(s.v) /\ To(P!Done(s.d, "type", TRUE))
                       \/ s.d.ph = "cfg" /\ RcV /\ e.ty = TypeOf(s.v) /\ "type" \in s.d.need /\ s' = [s EXCEPT !.d.need = @ \ {"type"}]
    [] e.e = "user" -> e.u = s.v[User] /\ To(P!Done(s.d, "user", TRUE))
    [] e.e = "serial" -> To(P!Done(s.d, "serial", e.r = 1))
    [] e.e = "tb" -> s.d.ph = "up" /\ s.d.started = {} /\ <<e.ty, e.l>> \in Tbs \ s.tbs /\ s' = [s EXCEPT !.tbs = @ \cup {<<e.ty, e.l>>}]
    [] e.e = "pos" -> /\ ~RcV /\ s.pos = 0 /\ s.d.ph \notin {"cfg", "die"} /\ P!Ready(s.d)
                      /\ e.x = <<s.v[Lat], s.v[Lon], s.v[Alt]>> /\ s' = [s EXCEPT !.pos = 1]
    [] e.e = "init" -> To(P!Init(s.d, e.c, e.r = 1))
    [] e.e = "start" -> s.tbs = Tbs /\ To(P!StartC(s.d, e.c, e.r = 1))
    [] e.e = "wait" -> /\ e.int = 1 /\ (~RcV => s.pos = 1)
                       /\ M.variant = "rc-uart" => e.white = 1 - s.m.black
                       /\ To(P!Wait(s.d))
    [] e.e = "stop" -> To(P!Stop(s.d, e.c, e.r = 1))
    [] e.e = "destruct" -> To(P!Destruct(s.d, e.c))
    [] e.e = "end" -> IF RcV /\ s.m.save = 1
                      THEN /\ IF s.m.bad = 1 THEN e.r # 0
                              ELSE /\ e.r = 0
                                   /\ \E x \in C!Read(C!DefV, G0, e.b, TRUE, TRUE, TRUE) : x.v = s.v /\ x.g = s.g /\ x.ret
                           /\ s.d.ph = "up" /\ s.d.inited = {} /\ "serial" \in s.d.need
                           /\ s' = [s EXCEPT !.d.ph = "over"]
                      ELSE e.r = 0 /\ e.file = 0 /\ To(P!End(s.d))
    [] OTHER -> FALSE
\* the daemon which was asked to save does nothing else
Only(e) == RcV /\ s.m.e = "main" /\ s.m.save = 1 => e.e \in {"main", "chk", "end", "emerg", "type"}
\* at the end of the trace it is over
Over == l' = NEv(tr) + 1 => s'.d.ph \in {"dead", "over"}
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Only(Evs(tr)[l]) /\ Step(Evs(tr)[l]) /\ (~Has(Traces[tr], "upto") => Over) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
