------------------------------ MODULE PkgTrace ------------------------------
(* Recorded histories of the packages' maintainer scripts (harness/pkg.py).       *)
EXTENDS TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
Opts == M.opts
C == INSTANCE Cfg
N == Len(Opts)
Ix(sec, nm) == CHOOSE i \in 1..N : C!Same(Opts[i].sec, sec) /\ C!Same(Opts[i].name, nm)
Gps == <<103, 112, 115>>
Device == <<100, 101, 118, 105, 99, 101>>
Input == <<105, 110, 112, 117, 116>>
Lat == Ix(Gps, <<108, 97, 116, 105, 116, 117, 100, 101>>)
Lon == Ix(Gps, <<108, 111, 110, 103, 105, 116, 117, 100, 101>>)
Alt == Ix(Gps, <<97, 108, 116, 105, 116, 117, 100, 101>>)
Type == Ix(Device, <<116, 121, 112, 101>>)
Serial == Ix(Device, <<115, 101, 114, 105, 97, 108>>)
User == Ix(<<105, 100, 101, 110, 116>>, <<117, 115, 101, 114, 110, 97, 109, 101>>)
Host == Ix(Input, <<104, 111, 115, 116>>)
Port == Ix(Input, <<112, 111, 114, 116>>)
Sync == Ix(<<102, 105, 108, 116, 101, 114>>, <<115, 121, 110, 99, 102, 105, 108, 116, 101, 114>>)
Std == <<51, 48, 48, 48, 53>>
Localhost == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>

\* ---- what is a valid answer: what the daemon can use
Signed(b) == b # <<>> /\ Head(b) \in {43, 45}
Body(b) == IF Signed(b) THEN Tail(b) ELSE b
Neg(b) == b # <<>> /\ Head(b) = 45
Digits(b) == b # <<>> /\ \A i \in 1..Len(b) : C!Digit(b[i])
\* digits with at most one dot among or after or, if digits follow, before them
Rational(b) ==
  LET u == Body(b) ip == C!Span(u, 48..57) r == SubSeq(u, Len(ip) + 1, Len(u)) IN
  IF r = <<>> THEN ip # <<>>
  ELSE Head(r) = 46 /\ (Tail(r) = <<>> \/ Digits(Tail(r))) /\ (ip # <<>> \/ Tail(r) # <<>>)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 10 * Pow(k - 1)
RECURSIVE Val(_, _)
Val(d, acc) == IF d = <<>> THEN acc ELSE Val(Tail(d), acc * 10 + Head(d))
Above(d, n) == IF d[3] >= 0 THEN Val(d[2], 0) * Pow(d[3]) > n ELSE Val(d[2], 0) > n * Pow(0 - d[3])
Dbl(b) == C!Dbl1(b).v
Whole(b) == C!DropZ([i \in 1..Len(Body(b)) |-> Body(b)[i] - 48])
Ok(q, b) ==
  CASE q = "latitude" -> Rational(b) /\ ~Above(Dbl(b), 90)
    [] q = "longitude" -> Rational(b) /\ ~Above(Dbl(b), 180)
    [] q = "altitude" -> Rational(b)
    [] q = "username" -> Len(b) <= 40
    [] q = "serial" -> b = <<>> \/ (Digits(Body(b)) /\ C!Le(Whole(b), C!Max32) /\ (Neg(b) => Whole(b) = <<>>))
    [] q = "port" -> b = <<>> \/ (Digits(Body(b)) /\ ~Neg(b) /\ Whole(b) # <<>> /\ C!Le(Whole(b), C!Max16))
    [] OTHER -> TRUE
Rank(q) == IF q \in {"latitude", "longitude", "altitude"} THEN 1 ELSE 2
Q == DOMAIN Evs(tr)[1].db
Def == [q \in Q |-> IF q = "port" THEN Std ELSE IF q = "host" THEN Localhost ELSE <<>>]
P == INSTANCE Pkg
Fmt == [latitude |-> "latitudeformat", longitude |-> "longitudeformat", altitude |-> "altitudeformat",
        username |-> "usernameformat", serial |-> "serialformat", port |-> "portformat"]
SetOf(x) == {x[i] : i \in 1..Len(x)}

\* ---- what the daemon makes of the file
Base == [C!DefV EXCEPT ![Port] = Std, ![Sync] = <<0>>]
G0 == [i \in 1..N |-> 0]
Want(v, i) ==
  CASE i = Lat -> Dbl(v["latitude"]) [] i = Lon -> Dbl(v["longitude"]) [] i = Alt -> Dbl(v["altitude"])
    [] i = User -> IF v["username"] = <<>> THEN Base[i] ELSE v["username"]
    [] i = Serial -> IF v["serial"] = <<>> THEN Base[i] ELSE C!Text(Whole(v["serial"]))
    [] i = Port -> IF v["port"] = <<>> THEN Std ELSE C!Text(Whole(v["port"]))
    [] i = Host -> IF v["host"] = <<>> THEN Localhost ELSE v["host"]
    [] "dump1090branch" \in Q /\ i = Type -> IF v["dump1090branch"] = <<>> THEN Base[i] ELSE v["dump1090branch"]
    [] OTHER -> Base[i]
AskedFor(i) == CASE i = Lat -> "latitude" [] i = Lon -> "longitude" [] i = Alt -> "altitude" [] i = Serial -> "serial"
                 [] OTHER -> "host"
\* b is read after the file the daemon stored its serial number in (first)
Reads(v, first, b) ==
  \A x \in C!Read(Base, G0, first, FALSE, TRUE, TRUE) : \A y \in C!Read(x.v, x.g, b, FALSE, TRUE, TRUE) :
    /\ y.ret /\ y.any = {} /\ (P!Invalid(v) = {} => ~y.warn)
    /\ \A i \in 1..N : Ok(AskedFor(i), v[AskedFor(i)]) => y.v[i] = (IF i = Serial /\ v["serial"] = <<>> THEN x.v[i] ELSE Want(v, i))
    /\ (\A i \in {Lat, Lon, Alt} : Ok(AskedFor(i), v[AskedFor(i)]) => y.g[i] = Opts[i].giv)
    /\ (v["serial"] = <<>> => y.g[Serial] = x.g[Serial])

Files(e) == [dir |-> e.dir, mode |-> e.mode, conf |-> e.conf, s10 |-> e.s10, s05 |-> e.s05, other |-> e.other,
             user |-> e.user, group |-> e.group]
Init == tr \in 1..NTraces /\ l = 1 /\ s = [pc |-> "new"] /\ Accept(tr, 1)
Begin(e) == /\ s.pc = "new" /\ e.db = Def
            /\ s' = [pc |-> "idle", v |-> e.db, seen |-> {}, f |-> Files(e), over |-> e.over,
                     r |-> e, rnd |-> 0, v0 |-> e.db, saw |-> {}, told |-> FALSE]
Run(e) == /\ s.pc = "idle"
          /\ s' = [s EXCEPT !.pc = "run", !.r = e, !.rnd = 0, !.v0 = s.v, !.saw = {}, !.told = FALSE]
\* on an upgrade the serial number is only asked for when reconfiguring
Seen == IF s.r.from = 1 THEN s.seen \cup {"serial"} ELSE s.seen
F1 == P!First(Seen, s.r.thr, s.r.ni = 1, s.r.reshow = 1)
Changed(v) == s.v0["username"] # <<>> /\ v["username"] # s.v0["username"]
Screen(e) ==
  /\ s.pc = "run" /\ s.r.ni = 0 /\ ~s.told
  /\ LET q == SetOf(e.q) er == SetOf(e.err) IN
     \/ /\ s.rnd = 0 /\ q = F1 /\ er = {} /\ P!Kept(s.v, e.db, q)
        /\ s' = [s EXCEPT !.v = e.db, !.rnd = 1, !.saw = @ \cup q]
     \/ /\ (s.rnd > 0 \/ F1 = {}) /\ q = P!Again(s.v, s.r.thr, FALSE) /\ er = {Fmt[x] : x \in P!Invalid(s.v)} /\ er # {}
        /\ P!Kept(s.v, e.db, q)
        /\ s' = [s EXCEPT !.v = e.db, !.rnd = 2, !.saw = @ \cup q]
     \/ /\ (s.rnd > 0 \/ F1 = {}) /\ q = {} /\ er = {"usernamechanged"} /\ P!Done(s.v, s.r.thr, FALSE) /\ Changed(e.db)
        /\ P!Kept(s.v, e.db, {})
        /\ s' = [s EXCEPT !.v = e.db, !.told = TRUE]
End(e) == /\ s.pc = "run" /\ e.rc = 0 /\ P!Kept(s.v, e.db, {}) /\ P!Done(e.db, s.r.thr, s.r.ni = 1)
          /\ (s.rnd > 0 \/ F1 = {}) /\ (s.r.ni = 0 => s.told = Changed(e.db))
          /\ LET sn == SetOf(e.seen) IN
             /\ s.saw \subseteq sn /\ sn \subseteq Seen \cup s.saw
             /\ \A q \in Seen \ sn : ~Ok(q, s.v0[q])
             /\ s' = [s EXCEPT !.pc = "post", !.v = e.db, !.seen = sn]
\* the administrator gives up: nothing has happened
Killed(e) == s.pc = "run" /\ e.db = s.v0 /\ SetOf(e.seen) = s.seen /\ s' = [s EXCEPT !.pc = "idle", !.v = s.v0]
Post(e) ==
  /\ s.pc = "post" /\ e.why = "end" /\ e.rc = 0 /\ e.db = s.v
  /\ e.dir = 1 /\ e.user = 1 /\ e.group = 1 /\ Reads(s.v, e.s05, e.conf) /\ e.other = s.f.other
  /\ IF s.over = 1 THEN e.own = 0 /\ (s.f.dir = 1 => e.mode = s.f.mode) ELSE e.own = 1 /\ e.mode = 1512
  /\ IF e.up = 1 /\ s.f.s10 # <<>> THEN e.s05 = s.f.s10 /\ e.s10 = <<>> ELSE e.s05 = s.f.s05 /\ e.s10 = s.f.s10
  /\ s' = [s EXCEPT !.pc = "idle", !.f = Files(e)]
Remove(e) == s.pc = "idle" /\ e.why = "end" /\ e.rc = 0 /\ e.purged = 0 /\ Files(e) = s.f /\ UNCHANGED s
Purge(e) == /\ s.pc = "idle" /\ e.why = "end" /\ e.rc = 0 /\ e.purged = 1 /\ e.dir = 0 /\ e.user = 0 /\ e.group = 0
            /\ s' = [s EXCEPT !.v = Def, !.seen = {}, !.f = Files(e)]
Daemon(e) == s.pc = "idle" /\ s' = [s EXCEPT !.f = Files(e)]
Preseed(e) == s.pc = "idle" /\ s' = [s EXCEPT !.v = e.db, !.seen = SetOf(e.seen)]
Step(e) ==
  CASE e.e = "begin" -> Begin(e) [] e.e = "run" -> Run(e) [] e.e = "screen" -> Screen(e) [] e.e = "end" -> End(e)
    [] e.e = "killed" -> Killed(e) [] e.e = "post" -> Post(e) [] e.e = "remove" -> Remove(e) [] e.e = "purge" -> Purge(e)
    [] e.e = "daemon" -> Daemon(e) [] e.e = "preseed" -> Preseed(e)
    \* "loop": asked for ever; "hang": no answer
    [] OTHER -> FALSE
Next == /\ l <= Limit(tr) /\ Step(Evs(tr)[l]) /\ l' = l + 1 /\ tr' = tr /\ Accept(tr, l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
