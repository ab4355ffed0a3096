------------------------------ MODULE RcTrace -------------------------------
(* Recorded executions of the receiver's reader (harness/drv_rc.c) with       *)
(* whatever reads: the frames returned are those of Rc.tla, at once when they  *)
(* are complete, and with the counters of that moment.                          *)
EXTENDS TraceBase
PL(t) == CASE t = 49 -> 2 [] t = 50 -> 7 [] OTHER -> 14
INSTANCE Rc WITH HdrLen <- 7, PayLen <- PL
\* cnt: the counters up to the last frame returned; bytes read ahead are dropped uncounted with their connection
VARIABLES tr, l, p, busy, cnt
vars == <<tr, l, p, busy, cnt>>
Init == tr \in 1..NTraces /\ l = 1 /\ p = RcInit /\ busy = FALSE /\ cnt = <<0, 0>>
\* the time stamp: six bytes, the first the most significant; the signal level: signed
FrameOk(e, f) ==
  /\ e.ty = f.ty /\ e.ts = <<0, 0>> \o SubSeq(f.d, 1, 6) /\ e.sig = (IF f.d[7] > 127 THEN f.d[7] - 256 ELSE f.d[7])
  /\ e.pl = SubSeq(f.d, 8, Len(f.d)) /\ e.raw = f.raw
  /\ e.oos = f.oos /\ e.unk = f.unk
Step(e) ==
  CASE e.e = "conn" -> ~busy /\ p' = [RcCut(p) EXCEPT !.oos = cnt[1], !.unk = cnt[2]] /\ busy' = FALSE
    [] e.e = "get"  -> ~busy /\ busy' = TRUE /\ p' = p
    [] e.e = "read" -> /\ busy /\ p.out = <<>> /\ busy' = busy
                       /\ p' = IF e.d = <<>> THEN [RcCut(p) EXCEPT !.m = "failed"] ELSE RcParse(p, e.d)
    [] e.e = "frame" -> /\ busy /\ p.out # <<>> /\ FrameOk(e, Head(p.out))
                        /\ busy' = FALSE /\ p' = [p EXCEPT !.out = Tail(@)]
    [] e.e = "fail" -> busy /\ p.m = "failed" /\ e.oos = p.oos /\ e.unk = p.unk /\ busy' = FALSE /\ p' = RcCut(p)
    [] e.e = "reset" -> ~busy /\ busy' = busy /\ p.out = <<>> /\ p' = [p EXCEPT !.oos = 0, !.unk = 0]
    \* escaping
    [] e.e = "enc" -> ~busy /\ busy' = busy /\ p' = p /\ e.o = Esc(e.d)
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l])
        /\ cnt' = (LET e == Evs(tr)[l] IN IF e.e \in {"frame", "fail"} THEN <<e.oos, e.unk>> ELSE IF e.e = "reset" THEN <<0, 0>> ELSE cnt)
        /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
