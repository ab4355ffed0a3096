-------------------------------- MODULE Stat ---------------------------------
(* The report of the statistics component: its lines, every line with its text     *)
(* (# stands for a number, #.## for one with two decimals) and what its numbers     *)
(* may be (a), for numbers of any size.                                             *)
EXTENDS Naturals, Integers, Sequences
\* ---- natural numbers of any size: decimal digits, most significant first, no zeros in front
Front(a) == IF a = <<>> THEN <<>> ELSE SubSeq(a, 1, Len(a) - 1)
Low(a) == IF a = <<>> THEN 0 ELSE a[Len(a)]
RECURSIVE Dg(_)
Dg(n) == IF n = 0 THEN <<>> ELSE Dg(n \div 10) \o <<n % 10>>
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN Dg(c)
  ELSE LET x == Low(a) + Low(b) + c IN AddC(Front(a), Front(b), x \div 10) \o <<x % 10>>
Add(a, b) == AddC(a, b, 0)
RECURSIVE MulC(_, _, _)
MulC(a, m, c) == IF a = <<>> THEN Dg(c) ELSE LET x == Low(a) * m + c IN MulC(Front(a), m, x \div 10) \o <<x % 10>>
Shift(a, k) == IF a = <<>> THEN <<>> ELSE a \o [i \in 1..k |-> 0]
RECURSIVE Mul(_, _)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE Add(Shift(Mul(Front(a), b), 1), IF Low(a) = 0 THEN <<>> ELSE MulC(b, Low(a), 0))
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLe(Tail(a), Tail(b))
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN <<>> ELSE Add(Head(q), Sum(Tail(q)))

\* ---- what a printed number p may be: exactly d; or (n - o) / d to the nearest integer, both of them if in the middle
Is(d) == [k |-> "is", d |-> d]
Near(n, o, d) == [k |-> "near", n |-> n, o |-> o, d |-> d]
May(p, q) ==
  CASE q.k = "is" -> p = q.d
    [] q.k = "near" -> LET x == Add(MulC(Mul(p, q.d), 2, 0), MulC(q.o, 2, 0)) y == MulC(q.n, 2, 0) IN Le(x, Add(y, q.d)) /\ Le(y, Add(x, q.d))
\* with two decimals
Rate(n, o, d) == Near(Shift(n, 2), Shift(o, 2), Dg(d))
Pct(n, d) == IF d = <<>> THEN Is(<<>>) ELSE Near(Shift(n, 2), <<>>, d)
\* a line without numbers; a line with a single counter
Plain(x) == [x |-> x, a |-> <<>>]
Cnt(x, d) == [x |-> x, a |-> <<Is(d)>>]
\* f: the filter's counters: frames by type (1-4), unknown, filtered, Mode-S filtered, unsynchronized
Frames(v) == Sum(SubSeq(v, 1, 5))
Rates(n, o, secs, delta) == IF delta = 0 THEN <<Rate(n, <<>>, secs)>> ELSE <<Rate(n, <<>>, secs), Rate(n, o, delta)>>
Tail2(delta) == IF delta = 0 THEN "/s)" ELSE "/s,#.## /s)"
Line(name, n, o, all, secs, delta) ==
  [x |-> "-# [#%] " \o name \o " (#.## " \o Tail2(delta), a |-> <<Is(n), Pct(n, all)>> \o Rates(n, o, secs, delta)]
RECURSIVE Types(_, _, _, _, _, _)
Types(i, ty, oty, all, secs, delta) ==
  IF i = 32 THEN <<>>
  ELSE (IF ty[i + 1] = <<>> THEN <<>>
        ELSE << [x |-> "-# [#%] type# (#.## " \o Tail2(delta),
                 a |-> <<Is(ty[i + 1]), Pct(ty[i + 1], all), Is(Dg(i))>> \o Rates(ty[i + 1], oty[i + 1], secs, delta)] >>)
       \o Types(i + 1, ty, oty, all, secs, delta)
\* c: what has been counted; o: the same at the last report. The second line tells the start (StatTrace).
Report(c, o, secs, delta) ==
  LET f == c.fil.v g == o.fil.v
      all == Frames(f)
      L(name, k) == Line(name, f[k], g[k], all, secs, delta)
      b == c.buf n == c.net
  IN << Plain("Statistics"), Plain("-"),
        [x |-> "- running since#d,#h:#m:#s", a |-> <<Is(Dg(secs \div 86400)), Is(Dg((secs \div 3600) % 24)), Is(Dg((secs \div 60) % 60)), Is(Dg(secs % 60))>>],
        Plain(""), Plain("Receiver"),
        [x |-> "-# frames received (#.## " \o Tail2(delta), a |-> <<Is(all)>> \o Rates(all, Frames(g), secs, delta)],
        L("Mode-A/C", 1), L("Mode-S Short", 2), L("Mode-S Long", 3) >>
     \o Types(0, c.fil.ty, o.fil.ty, Add(f[2], f[3]), secs, delta)
     \o << L("status", 4), L("unknown", 5), L("filtered", 6), L("Mode-S filtered", 7), Cnt("-# unsynchronized frames", f[8]), Plain(""),
           Plain("Buffer") >>
     \o (IF b.over = 1 THEN <<Plain("- currently in overload")>> ELSE <<>>)
     \o << Cnt("-# queued messages (current)", b.v[1]), Cnt("-# queued messages (max)", b.v[2]),
           Cnt("-# discarded messages (current)", b.v[3]), Cnt("-# discarded messages (overall)", b.v[4]),
           Cnt("-# discarded messages (in worst overflow situation)", b.v[5]),
           [x |-> "-# messages in pool (Usage#.##%)", a |-> <<Is(b.v[6]), Near(Shift(b.v[1], 4), <<>>, Add(b.v[1], b.v[6]))>>],
           Cnt("-# dynamic pools (current)", b.v[7]), Cnt("-# dynamic pools (overall)", b.v[8]), Cnt("-# dynamic pools (max)", b.v[9]),
           Cnt("-# flushes", b.v[10]), Cnt("-# uncollected dynamic pools", b.v[11]), Cnt("-# Garbage Collector runs", b.v[12]), Plain(""),
           Plain("Network"), Plain("- currently " \o (IF n.online = 1 THEN "online" ELSE "offline")),
           [x |-> "-# [#%] seconds online (overall)", a |-> <<Is(n.v[1]), Pct(n.v[1], Dg(secs))>>],
           Cnt("-# disconnections", n.v[2]), Cnt("-# connection attempts", n.v[3]),
           [x |-> "-# bytes sent (#.##/s)", a |-> <<Is(n.v[4]), Rate(n.v[4], <<>>, secs)>>],
           [x |-> "-# bytes received (#.##/s)", a |-> <<Is(n.v[5]), Rate(n.v[5], <<>>, secs)>>] >>
\* a printed line says what it should
Says(p, q) == p.nl = 1 /\ p.x = q.x /\ Len(p.v) = Len(q.a) /\ \A i \in 1..Len(q.a) : May(p.v[i], q.a[i])
=============================================================================
