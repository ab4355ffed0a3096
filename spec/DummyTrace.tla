----------------------------- MODULE DummyTrace ------------------------------
(* Recorded executions of the simulated receivers (harness/drv_dummy.c): every   *)
(* frame read (raw), or the frames which reach the queue behind the filter; the  *)
(* simulated GPS receiver just waits.                                            *)
EXTENDS TraceBase
PL(t) == CASE t = 49 -> 2 [] t = 50 -> 7 [] OTHER -> 14
INSTANCE Dummy WITH HdrLen <- 7, PayLen <- PL
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
IsRc == M.kind = "rc"
\* first: nothing was delivered yet; at: when it was delivered or started
\* n, same: frames counted, positions of the data which were the same in all of them
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ s = [run |-> FALSE, first |-> FALSE, at |-> [sod |-> 0, ns |-> 0], can |-> FALSE, n |-> 0, d |-> <<>>, same |-> {}]
T(e) == [sod |-> e.sod, ns |-> e.ns]
\* k frames come in at most this time
Paced(e, k) == Near(s.at, T(e)) /\ Us(s.at, T(e)) \in (k * MinPause - 1)..(k * MaxPause + 1)
Late(e, k) == ~Near(s.at, T(e)) \/ Us(s.at, T(e)) > k * MaxPause + 1
\* the frames behind the filter: the first one is not among them
Hidden == s.first /\ M.raw = 0
Stamped(e, x) == NotBefore(s.at, x) /\ NotBefore(x, T(e))
Parsed(raw) == RcParse(RcInit, raw).out
Frame(e, raw) ==
  LET out == Parsed(raw) IN
  IF ~(s.run /\ Len(out) = 1) THEN {}
  ELSE LET f == out[1]
           first == s.first /\ M.raw = 1
           new == 8..Len(f.d)
       IN IF /\ f.raw = raw /\ f.ty = Type(first) /\ Body(first, f.d) /\ Stamped(e, Stamp(f.d))
             /\ Paced(e, IF Hidden THEN 2 ELSE 1)
          THEN {[s EXCEPT !.first = FALSE, !.at = T(e), !.n = IF first THEN @ ELSE @ + 1, !.d = f.d,
                          !.same = IF first THEN {} ELSE IF s.n = 0 THEN new ELSE {i \in @ : f.d[i] = s.d[i]}]}
          ELSE {}
Read(e) ==
  IF e.r = 1 /\ M.raw = 1 /\ Len(e.p) = 14 /\ Len(Parsed(e.d)) = 1
     /\ LET f == Parsed(e.d)[1] IN f.ty = e.ty /\ f.d = e.m \o <<e.sig>> \o e.p
  THEN Frame(e, e.d) ELSE {}
\* the data are random: no position but the first has the same value in very many frames
Random == (M.rnd = 1 /\ s.n >= 12) => s.same \subseteq {8}
Step(e) ==
  CASE e.e = "start"  -> {[s EXCEPT !.run = TRUE, !.first = TRUE, !.at = T(e), !.can = FALSE, !.n = 0, !.d = <<>>]}
    [] e.e = "frame"  -> IF IsRc THEN Read(e) ELSE {}
    [] e.e = "commit" -> IF IsRc /\ e.mine = 1 /\ M.raw = 0 THEN Frame(e, e.d) ELSE {}
    [] e.e = "abort"  -> IF IsRc /\ e.mine = 1 /\ s.can THEN {s} ELSE {}
    \* frames keep coming until then
    [] e.e = "stop"   -> IF IsRc /\ Late(e, IF Hidden THEN 2 ELSE 1) THEN {} ELSE IF Random THEN {s} ELSE {}
    [] e.e = "greset" -> IF IsRc THEN {} ELSE {s}
    [] e.e = "cancel" -> {[s EXCEPT !.can = TRUE]}
    [] e.e = "exit"   -> IF s.can THEN {[s EXCEPT !.run = FALSE]} ELSE {}
    [] e.e = "end"    -> IF e.held = 0 /\ e.locks = 0 /\ ~s.run THEN {s} ELSE {}
    [] OTHER -> {}
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ s' \in Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
