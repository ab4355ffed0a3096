----------------------------- MODULE CompTrace -----------------------------
(* Recorded executions of util/component.c (harness/drv_comp.c).              *)
EXTENDS Comp, TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Cs == 1..M.n
D == [c \in Cs |-> {M.deps[c][i] : i \in 1..Len(M.deps[c])}]
En == [c \in Cs |-> M.en[c] = 1]
Thr(c) == M.thr[c] = 1
\* callbacks a component does not have (their effect is not visible): 1 register, 2 reset, 4 construct, 8 destruct, 16 start, 32 stop; 64: it has a configuration
Lacks(c, b) == (M.lack[c] \div b) % 2 = 1
Startable(x) == {c \in SetOf(x.con) : M.st[c] = 1}

Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [reg |-> {}, pend |-> {}, fixed |-> FALSE, con |-> <<>>, sta |-> <<>>, op |-> "", fail |-> FALSE,
                pass |-> 0, todo |-> {}, prog |-> FALSE, new |-> {}, ex |-> {}, late |-> {}, cur |-> 0, t0 |-> 0,
                th |-> [c \in 1..6 |-> 0], done |-> {}]

Drop(x, c) == [x EXCEPT !.sta = Without(@, c), !.ex = @ \ {c}, !.late = @ \ {c}, !.new = @ \ {c}]
\* threads which ended late may or may not have been collected meanwhile
RECURSIVE DropAll(_, _)
DropAll(x, R) == IF R = {} THEN x ELSE LET c == CHOOSE c \in R : TRUE IN DropAll(Drop(x, c), R \ {c})
Collected(x) == {DropAll(x, R) : R \in SUBSET (x.late \cap x.ex \cap SetOf(x.sta))}
\* the outcome of waiting for a cancelled thread, seen at the next action
Resolve(x) ==
  IF x.cur = 0 THEN {x}
  ELSE (IF x.cur \in x.ex THEN {[Drop(x, x.cur) EXCEPT !.cur = 0, !.prog = TRUE]} ELSE {})
       \cup {[x EXCEPT !.cur = 0, !.late = @ \cup {x.cur}]}

Downing(x) == x.op = "stop" \/ (x.op = "start" /\ x.fail)
\* start of a pass over the started components
Pass(x, k) == [x EXCEPT !.pass = k, !.prog = FALSE,
                        !.todo = IF k = 1 THEN SetOf(x.sta) \ x.late ELSE {c \in SetOf(x.sta) : ~Thr(c)}]
\* in an undo the components started before this round are optional
Mandatory(x) == IF x.op = "stop" THEN x.todo ELSE x.todo \cap x.new
PassDone(x) == Mandatory(x) = {}
NextPass(x) == IF PassDone(x) /\ (x.prog \/ x.pass = 1 \/ x.late # {})
               THEN {Pass(y, x.pass + 1) : y \in Collected(x)} ELSE {}
\* c is next to be stopped
Turn(x, c) == /\ c \in x.todo
              /\ IF x.op = "stop" THEN DownOk(D, x.todo, c)
                 ELSE c \in x.new => c = LastIn(x.sta, x.todo \cap x.new)
Sto1(x, e) ==
  IF ~Turn(x, e.c) \/ Thr(e.c) \/ (x.pass = 1) # (e.d = 0) THEN {}
  ELSE IF e.ok = 1 THEN {[Drop(x, e.c) EXCEPT !.todo = @ \ {e.c}, !.prog = TRUE]}
  ELSE {[x EXCEPT !.todo = @ \ {e.c}]}
Sto(x, e) == IF ~Downing(x) THEN {}
             ELSE Sto1(x, e) \cup UNION {Sto1(y, e) : y \in NextPass(x)}
Cancel(x, e) ==
  LET c == CHOOSE c \in Cs : x.th[c] = e.th IN
  IF ~Downing(x) \/ ~(\E k \in Cs : x.th[k] = e.th) THEN {}
  ELSE IF c \in x.late THEN {x}
  ELSE IF Turn(x, c) /\ x.pass = 1 THEN {[x EXCEPT !.todo = @ \ {c}, !.cur = c]} ELSE {}
StopEnd(x) ==
  IF ~PassDone(x) THEN {}
  ELSE {y \in Collected(x) : (\E c \in SetOf(y.sta) : ~Thr(c) /\ (x.op = "stop" \/ c \in x.new)) => ~x.prog}

Fail(x) == Pass([x EXCEPT !.fail = TRUE], 1)
Up(x, c) == [x EXCEPT !.sta = Append(@, c), !.new = @ \cup {c}]
MayStart(x, c) == x.op = "start" /\ ~x.fail /\ UpOk(D, Startable(x), SetOf(x.sta), c)

Call(x, e) ==
  CASE e.op = "fixup" -> {[x EXCEPT !.op = "fixup", !.pend = Close(D, x.reg) \ x.reg]}
    [] e.op = "init" -> IF x.con = <<>> THEN {[x EXCEPT !.op = "init", !.fail = FALSE]} ELSE {}
    [] e.op = "start" -> {[x EXCEPT !.op = "start", !.fail = FALSE, !.new = {}, !.t0 = e.n]}
    [] e.op = "stop" -> {Pass([x EXCEPT !.op = "stop", !.fail = FALSE, !.new = {}, !.t0 = e.n], 1)}
    [] e.op = "reset" -> {[x EXCEPT !.op = "reset", !.done = {}]}
    [] OTHER -> {[x EXCEPT !.op = e.op]}
\* waiting for threads: a second for each of them in each pass, and there is no pass without progress
MaxStop == 1001 * M.n * (M.n + 1)
Ret(x, e) ==
  LET y == [x EXCEPT !.op = ""] IN
  CASE e.op = "register" -> IF x.pend = {} THEN {y} ELSE {}
    [] e.op = "fixup" -> IF x.pend = {} /\ ~Cyclic(D, x.reg) THEN {y} ELSE {}
    [] e.op = "init" -> IF Refused(D, En, x.reg) THEN {}
                        ELSE IF x.fail THEN (IF e.ok = 0 /\ x.con = <<>> THEN {y} ELSE {})
                        ELSE (IF e.ok = 1 /\ SetOf(x.con) = {c \in x.reg : En[c]} THEN {y} ELSE {})
    [] e.op \in {"start", "stop"} /\ e.n - x.t0 > MaxStop -> {}
    [] e.op = "start" -> IF x.fail
                         THEN (IF e.ok = 0 THEN {[z EXCEPT !.op = ""] : z \in StopEnd(x)} ELSE {})
                         ELSE (IF e.ok = 1 /\ Startable(x) \subseteq SetOf(x.sta) THEN {y} ELSE {})
    [] e.op = "stop" -> {[z EXCEPT !.op = ""] : z \in StopEnd(x)}
    [] e.op = "destruct" -> IF x.con = <<>> THEN {y} ELSE {}
    [] e.op = "reset" -> IF x.done = {c \in x.reg : ~Lacks(c, 2)} THEN {y} ELSE {}
    [] e.op = "unregister" -> {[y EXCEPT !.reg = {}]}
    [] OTHER -> {}

Manager(x, e) ==
  CASE e.e = "call" -> Call(x, e)
    [] e.e = "ret" -> Ret(x, e)
    [] e.e = "register" -> {[x EXCEPT !.op = "register", !.pend = {e.c}]}
    [] e.e = "onreg" -> IF e.c \in x.pend THEN {[x EXCEPT !.pend = @ \ {e.c}, !.reg = @ \cup {e.c}]} ELSE {}
    [] e.e = "con" -> IF x.op # "init" \/ x.fail \/ Refused(D, En, x.reg)
                         \/ ~UpOk(D, {c \in x.reg : En[c]}, SetOf(x.con), e.c) THEN {}
                      ELSE IF e.ok = 1 THEN {[x EXCEPT !.con = Append(@, e.c)]} ELSE {[x EXCEPT !.fail = TRUE]}
    [] e.e = "des" -> IF e.c \notin SetOf(x.con) \/ e.c \in SetOf(x.sta) THEN {}
                      ELSE IF (x.op = "init" /\ x.fail /\ e.c = x.con[Len(x.con)])
                              \/ (x.op = "destruct" /\ DownOk(D, SetOf(x.con), e.c))
                      THEN {[x EXCEPT !.con = Without(@, e.c)]} ELSE {}
    [] e.e = "sta" -> IF ~MayStart(x, e.c) \/ Thr(e.c) THEN {}
                      ELSE IF e.ok = 1 THEN {Up(x, e.c)} ELSE {Fail(x)}
    [] e.e = "crf" -> IF \E c \in Cs : MayStart(x, c) /\ Thr(c) THEN {Fail(x)} ELSE {}
    [] e.e = "sto" -> Sto(x, e)
    [] e.e = "cancel" -> Cancel(x, e)
    [] e.e = "res" -> IF x.op = "reset" /\ e.c \in x.reg \ x.done THEN {[x EXCEPT !.done = @ \cup {e.c}]} ELSE {}
    [] e.e = "emerg" -> IF (x.op = "fixup" /\ Cyclic(D, x.reg))
                           \/ (x.op = "init" /\ ~x.fail /\ x.con = <<>> /\ Refused(D, En, x.reg)) THEN {x} ELSE {}
    [] e.e = "opts" -> IF x.op = "" /\ \A c \in Cs : (e.x[c] = 1) = (c \in x.reg /\ Lacks(c, 64)) THEN {x} ELSE {}
    [] e.e = "end" -> IF e.live = Cardinality({c \in SetOf(x.sta) : Thr(c) /\ c \notin x.ex}) THEN {x} ELSE {}
    [] OTHER -> {}
\* what happens to components without the callback
Quiet1(x) ==
  {[x EXCEPT !.pend = @ \ {c}, !.reg = @ \cup {c}] : c \in {c \in x.pend : Lacks(c, 1)}}
  \cup (IF x.op = "init" THEN {[x EXCEPT !.con = Append(@, c)] :
           c \in {c \in x.reg : Lacks(c, 4) /\ ~x.fail /\ ~Refused(D, En, x.reg)
                               /\ UpOk(D, {d \in x.reg : En[d]}, SetOf(x.con), c)}} ELSE {})
  \cup {[x EXCEPT !.con = Without(@, c)] :
           c \in {c \in SetOf(x.con) \ SetOf(x.sta) : Lacks(c, 8)
                   /\ ((x.op = "init" /\ x.fail /\ c = x.con[Len(x.con)])
                       \/ (x.op = "destruct" /\ DownOk(D, SetOf(x.con), c)))}}
  \cup {Up(x, c) : c \in {c \in Cs : Lacks(c, 16) /\ ~Thr(c) /\ MayStart(x, c)}}
  \cup (IF Downing(x) THEN {[Drop(x, c) EXCEPT !.todo = @ \ {c}, !.prog = TRUE] :
           c \in {c \in x.todo : Lacks(c, 32) /\ ~Thr(c) /\ Turn(x, c)}} ELSE {})
Quiet == UNION {Quiet1(y) : y \in Resolve(s)}
Other(x, e) ==
  CASE e.e = "run" -> IF MayStart(x, e.c) /\ Thr(e.c) THEN {[Up(x, e.c) EXCEPT !.th[e.c] = e.t]} ELSE {}
    [] e.e = "exit" -> {[x EXCEPT !.ex = @ \cup {c \in Cs : x.th[c] = e.t}]}
    [] e.e = "gone" -> {x}
    [] OTHER -> {}
Step(e) == IF e.e \in {"fatal"} THEN {}
           ELSE IF e.t = 0 THEN UNION {Manager(y, e) : y \in Resolve(s)} ELSE Other(s, e)
Visible ==
        /\ l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr
        /\ s' \in Step(Evs(tr)[l])
        /\ Accept(tr, l')
Silent == l <= NEv(tr) /\ s' \in Quiet /\ UNCHANGED <<tr, l>>
Next == Visible \/ Silent
Spec == Init /\ [][Next]_vars
=============================================================================
