---------------------------- MODULE FilterTrace -----------------------------
(* Recorded histories of core/filter.c (harness/drv_filter.c)                  *)
EXTENDS Filter, TraceBase
VARIABLES tr, l, f, c
vars == <<tr, l, f, c>>
Init == tr \in 1..NTraces /\ l = 1 /\ f = FInit(TRUE, TRUE) /\ c = CInit
Step(e) ==
  CASE e.e = "construct" -> f' = FInit(e.sync = 1, e.ext = 1) /\ c' = c
    [] e.e = "sync" -> f' = [f EXCEPT !.sync = e.x = 1] /\ c' = c
    \* the input has to be told, once and with the new setting in force
    [] e.e = "ext" -> f' = [f EXCEPT !.ext = e.x = 1] /\ c' = c /\ e.reconf = <<e.x>>
    [] e.e = "is" -> f' = [f EXCEPT !.is = e.x = 1] /\ c' = c
    [] e.e = "reset" -> f' = [f EXCEPT !.is = FALSE] /\ c' = c
    [] e.e = "frame" -> f' = f /\ (e.r = 1) = Passes(f, e.ft, e.b) /\ c' = CFrame(c, f, e.ft, e.b)
    \* every setting and first byte at once: the first bytes which pass
    [] e.e = "bytes" -> f' = f /\ {e.p[i] : i \in 1..Len(e.p)} = {b \in 0..255 : Passes(f, e.ft, b)} /\ c' = CInit
    [] e.e = "rstats" -> f' = f /\ c' = CInit
    [] e.e = "stats" -> /\ f' = f /\ c' = c /\ e.crc = e.wcrc
                        /\ e.byType = [i \in 1..4 |-> c.byType[48 + i]] /\ e.byDf = [i \in 1..32 |-> c.byDf[i - 1]]
                        /\ e.filtered = c.filtered /\ e.modeS = c.modeS /\ e.unsync = c.unsync
                        /\ e.cfg = <<IF f.sync THEN 1 ELSE 0, IF f.ext THEN 1 ELSE 0>>
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
