-------------------------------- MODULE MCLib --------------------------------
(* The feeder library as a state machine over its calls; the state graph is     *)
(* replayed on both real libraries. Frames are 0..2: filtered by type, passing  *)
(* the filter, of no supported kind.                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Gp, MaxQ
VARIABLES conf, run, is, sync, stat, q, has, fix, need, last
vars == <<conf, run, is, sync, stat, q, has, fix, need, last>>
Init == /\ conf = ~Gp /\ run = FALSE /\ is = FALSE /\ sync = TRUE /\ stat = 0 /\ q = 0
        /\ has = FALSE /\ fix = FALSE /\ need = FALSE /\ last = "x"
L(x) == last' = x
Configure == conf' = TRUE /\ L("conf") /\ UNCHANGED <<run, is, sync, stat, q, has, fix, need>>
Enable(k) == /\ conf /\ L(<<"en", "en1", "en2">>[k + 1]) /\ run' = (run \/ k = 0) /\ q' = 0 /\ need' = FALSE
             /\ is' = (Gp \/ stat > 0) /\ UNCHANGED <<conf, sync, stat, has, fix>>
Disable == L("dis") /\ run' = FALSE /\ UNCHANGED <<conf, is, sync, stat, q, has, fix, need>>
Submit(k) == /\ L(<<"sub0", "sub1", "sub2">>[k + 1])
             /\ q' = (IF run /\ k = 1 /\ (is \/ ~sync) THEN q + 1 ELSE q) /\ q' <= MaxQ
             /\ UNCHANGED <<conf, run, is, sync, stat, has, fix, need>>
Drain == L("drain") /\ q' = 0 /\ UNCHANGED <<conf, run, is, sync, stat, has, fix, need>>
SetSync(x) == sync' = x /\ L(IF x THEN "sync1" ELSE "sync0") /\ UNCHANGED <<conf, run, is, stat, q, has, fix, need>>
Unsync == is' = FALSE /\ L("unsync") /\ UNCHANGED <<conf, run, sync, stat, q, has, fix, need>>
Pos == /\ has' = TRUE /\ fix' = (fix \/ Gp) /\ need' = (need /\ ~fix') /\ L("pos")
       /\ UNCHANGED <<conf, run, is, sync, stat, q>>
NoPos == Gp /\ fix' = FALSE /\ L("nopos") /\ UNCHANGED <<conf, run, is, sync, stat, q, has, need>>
Status(s) == /\ ~Gp /\ stat' = s /\ is' = (s > 0) /\ fix' = (s = 2) /\ need' = (need /\ ~(has /\ fix'))
             /\ L(<<"st0", "st1", "st2">>[s + 1]) /\ UNCHANGED <<conf, run, sync, q, has>>
Ask == need' = (need \/ ~(has /\ fix)) /\ L("ask") /\ UNCHANGED <<conf, run, is, sync, stat, q, has, fix>>
Next == \/ Configure \/ Disable \/ Drain \/ Unsync \/ Pos \/ NoPos \/ Ask
        \/ \E k \in 0..2 : Enable(k) \/ Submit(k) \/ Status(k)
        \/ \E x \in BOOLEAN : SetSync(x)
Spec == Init /\ [][Next]_vars
\* without a configuration nothing is ever sent on; an open request is only one
\* which could not be answered
Inv == (run => conf) /\ (q > 0 => conf) /\ (need => ~(has /\ fix))
\* frames only come in while the library is enabled; enabling starts afresh
Rules == [][/\ (q' > q => run /\ (is \/ ~sync)) /\ (~run /\ run' => q' = 0)]_vars
=============================================================================
