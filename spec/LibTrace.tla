------------------------------- MODULE LibTrace -----------------------------
(* Recorded histories of the feeder libraries (harness/drv_lib.c)               *)
EXTENDS Lib, TraceBase
VARIABLES tr, l, conf, run, f, q, g, st, ctx
vars == <<tr, l, conf, run, f, q, g, st, ctx>>
Gp == Meta(tr).gp = 1
\* ctx: what has been called and not returned; st: time status (radarcape),
\* or the configured serial number (gplib)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ conf = FALSE /\ run = FALSE /\ f = FInit(TRUE, TRUE) /\ q = <<>>
        /\ g = InitGps /\ st = <<0>> /\ ctx = <<"">>
\* the events of a call which sends the position at most once
Upd(g2) == g' = g2 /\ ctx' = (IF Answers(g2) THEN <<"answer">> ELSE <<"none">>)
Step(e) ==
  CASE e.e = "init" -> ctx' = <<"init">> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "type" /\ ctx[1] = "init" -> ~Gp /\ e.ty = 4 /\ UNCHANGED <<conf, run, f, q, g, st, ctx>>
    [] e.e = "initr" -> /\ ctx = <<"init">> /\ ctx' = <<"">> /\ e.sync = 1 /\ e.ext = 1
                        /\ conf' = ~Gp
                        /\ UNCHANGED <<run, f, q, g, st>>
    [] e.e = "conf" -> /\ ctx = <<"">> /\ conf' = TRUE
                       /\ (IF Gp THEN st' = <<e.h, e.l>> /\ ctx' = <<"conf", e.ty>> ELSE UNCHANGED <<st, ctx>>)
                       /\ UNCHANGED <<run, f, q, g>>
    [] e.e = "type" /\ ctx[1] = "conf" -> e.ty = ctx[2] /\ ctx' = <<"">> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "serial" -> (conf => e.r = 1 /\ <<e.h, e.l>> = st) /\ UNCHANGED <<conf, run, f, q, g, st, ctx>>
    \* without a configuration, or (the radarcape library may, the login does) a
    \* serial number, the process ends
    [] e.e = "emerg" -> /\ (ctx[1] = "en" /\ ~conf) \/ (ctx[1] \in {"init", ""} /\ ~Gp /\ Meta(tr).ok = 0)
                        /\ UNCHANGED <<conf, run, f, q, g, st, ctx>>
    \* nothing queued before is kept; a part which cannot start leaves the library disabled
    [] e.e = "en" -> ctx = <<"">> /\ ctx' = <<"en", TRUE>> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "start" -> /\ ctx[1] = "en" /\ conf /\ ~run
                        /\ ctx' = <<"en", ctx[2] /\ e.r = 1>> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "stop" -> /\ (ctx[1] = "en" /\ ~ctx[2]) \/ (ctx[1] = "dis" /\ run)
                       /\ UNCHANGED <<conf, run, f, q, g, st, ctx>>
    [] e.e = "enr" -> /\ ctx[1] = "en" /\ conf /\ ctx' = <<"">> /\ run' = (run \/ ctx[2])
                      /\ f' = [f EXCEPT !.is = Gp \/ st[1] > 0]
                      /\ q' = <<>> /\ g' = GWithdraw(g) /\ UNCHANGED <<conf, st>>
    [] e.e = "dis" -> ctx = <<"">> /\ ctx' = <<"dis">> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "disr" -> ctx = <<"dis">> /\ ctx' = <<"">> /\ run' = FALSE /\ UNCHANGED <<conf, f, q, g, st>>
    [] e.e = "sub" -> /\ ctx = <<"">> /\ ctx' = <<"sub">>
                      /\ q' = (IF ~run THEN q
                               ELSE IF Gp THEN (IF GpTakes(e) /\ Passes(f, TypeOf(Len(e.p)), e.p[1]) THEN Append(q, GpFrame(e)) ELSE q)
                               ELSE IF RcTakes(e) /\ Passes(f, e.ty, e.p[8]) THEN Append(q, RcFrame(e)) ELSE q)
                      /\ UNCHANGED <<conf, run, f, g, st>>
    [] e.e = "subr" -> ctx = <<"sub">> /\ ctx' = <<"">> /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "frame" -> q # <<>> /\ e.b = Head(q) /\ q' = Tail(q) /\ UNCHANGED <<conf, run, f, g, st, ctx>>
    [] e.e = "drained" -> q = <<>> /\ UNCHANGED <<conf, run, f, q, g, st, ctx>>
    [] e.e = "pos" -> Upd(GSet(g, e.b, Gp)) /\ UNCHANGED <<conf, run, f, q, st>>
    [] e.e = "nopos" -> Upd(GFix(g, FALSE)) /\ UNCHANGED <<conf, run, f, q, st>>
    [] e.e = "status" -> Upd(GFix(g, e.s = 2)) /\ st' = <<e.s>> /\ f' = [f EXCEPT !.is = e.s > 0] /\ UNCHANGED <<conf, run, q>>
    [] e.e = "ask" -> /\ ctx = <<"">>
                      /\ (IF Avail(g) THEN ctx' = <<"answer">> /\ g' = g ELSE ctx' = <<"none">> /\ g' = GDefer(g))
                      /\ UNCHANGED <<conf, run, f, q, st>>
    \* a position is only sent if there is one, with a fix, and it has been asked for
    [] e.e = "send" -> /\ (ctx = <<"answer">> \/ (ctx = <<"failed">> /\ Answers(g))) /\ e.b = MsgGps(g.pos)
                       /\ ctx' = (IF e.r = 1 THEN <<"sent">> ELSE <<"failed">>)
                       /\ UNCHANGED <<conf, run, f, q, g, st>>
    \* an answer which could not be sent is still wanted
    [] e.e = "posr" -> /\ ctx[1] \in {"none", "sent", "failed"} /\ ctx' = <<"">>
                       /\ g' = [g EXCEPT !.need = IF ctx[1] = "sent" THEN FALSE ELSE @]
                       /\ UNCHANGED <<conf, run, f, q, st>>
    [] e.e = "askr" -> /\ ctx[1] \in {"none", "sent", "failed"} /\ ctx' = <<"">> /\ (e.r = 1) = (ctx[1] # "failed")
                       /\ UNCHANGED <<conf, run, f, q, g, st>>
    [] e.e = "setsync" -> f' = [f EXCEPT !.sync = e.x = 1] /\ UNCHANGED <<conf, run, q, g, st, ctx>>
    [] e.e = "setext" -> f' = [f EXCEPT !.ext = e.x = 1] /\ UNCHANGED <<conf, run, q, g, st, ctx>>
    [] e.e = "unsync" -> f' = [f EXCEPT !.is = FALSE] /\ UNCHANGED <<conf, run, q, g, st, ctx>>
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
