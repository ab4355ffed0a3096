------------------------------ MODULE TrTrace -------------------------------
(* Recorded executions of the GPS receiver's reader and of the loop which       *)
(* evaluates its packets (harness/drv_tr.c).                                    *)
EXTENDS TraceBase
VARIABLES tr, l, p, busy, q, ph
vars == <<tr, l, p, busy, q, ph>>
T == INSTANCE Tr WITH Max <- Meta(tr).max
\* the positions in degrees, as given with the trace; a position which was never sent fits nothing
Deg(r) == LET t == Meta(tr).tab is == {i \in 1..Len(t) : t[i][1] = r} IN IF is = {} THEN <<>> ELSE t[CHOOSE i \in is : TRUE][2]
PosOf(k) == [lat |-> Deg(T!Lat(k)), lon |-> Deg(T!Lon(k)), alt |-> T!Alt(k)]
RECURSIVE Positions(_)
Positions(ks) == IF ks = <<>> THEN <<>>
  ELSE (IF T!IsPos(Head(ks)) /\ T!PosGood(Head(ks)) THEN <<PosOf(Head(ks))>> ELSE <<>>) \o Positions(Tail(ks))
SetUtc == <<16, 53, 4, 0, 1, 8, 16, 3>>
\* ph: "off" not connected, "dev" the device is connected, "up" and set up, "live" everything known has been forgotten
Init == tr \in 1..NTraces /\ l = 1 /\ p = T!TrInit /\ busy = FALSE /\ q = <<>> /\ ph = "off"
Step(e) ==
  CASE e.e = "iconn" -> ~busy /\ ph' = "dev" /\ q = <<>> /\ UNCHANGED <<p, busy, q>>
    [] e.e = "iw"   -> /\ ph = "dev" /\ e.d = SetUtc /\ p' = T!TrInit /\ UNCHANGED <<busy, q>>
                       /\ ph' = (IF e.r = Len(e.d) THEN "up" ELSE "off")
    [] e.e = "get"  -> ~busy /\ ph = "up" /\ busy' = TRUE /\ UNCHANGED <<p, q, ph>>
    [] e.e = "read" -> /\ busy /\ p.out = <<>> /\ UNCHANGED <<busy, q, ph>>
                       /\ p' = IF e.d = <<>> THEN [p EXCEPT !.m = "failed"] ELSE T!TrParse(p, e.d)
    [] e.e = "pkt"  -> /\ busy /\ p.out # <<>> /\ e.d = Head(p.out)
                       /\ busy' = FALSE /\ p' = [p EXCEPT !.out = Tail(@)] /\ UNCHANGED <<q, ph>>
    [] e.e = "fail" -> busy /\ p.m = "failed" /\ busy' = FALSE /\ p' = T!TrInit /\ UNCHANGED <<q, ph>>
    \* the loop: connected, everything known is forgotten; what is read is evaluated before the next read
    [] e.e = "greset" -> ph \in {"off", "up"} /\ ph' = (IF ph = "up" THEN "live" ELSE "off") /\ UNCHANGED <<p, q, busy>>
    [] e.e = "mread" -> /\ ph = "live" /\ q = <<>> /\ busy' = busy
                        /\ LET r == T!TrParse(p, e.d) IN
                           /\ p' = [r EXCEPT !.out = <<>>]
                           /\ q' = Positions(r.out)
                        /\ ph' = (IF e.d = <<>> THEN "off" ELSE ph)
    [] e.e = "mdis" -> UNCHANGED <<p, q, busy, ph>>
    [] e.e = "gpos" -> /\ q # <<>> /\ e.lat = q[1].lat /\ e.lon = q[1].lon /\ e.alt = q[1].alt
                       /\ q' = Tail(q) /\ UNCHANGED <<p, busy, ph>>
    [] e.e = "exit" \/ e.e = "cancel" -> UNCHANGED <<p, q, busy, ph>>
    [] e.e = "end" -> q = <<>> /\ e.con = 0 /\ UNCHANGED <<p, q, busy, ph>>
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
