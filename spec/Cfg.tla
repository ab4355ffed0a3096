-------------------------------- MODULE Cfg ---------------------------------
(* What a configuration file means: a file is a sequence of bytes, the state is   *)
(* the value of every option and whether it was given. Opts: the options, each    *)
(* with the name of its section, its name, type, size of the buffer and default.  *)
(* Values: strings are bytes, numbers their decimal digits, booleans <<0>>/<<1>>, *)
(* doubles <<negative, digits without zeros at either end, power of ten>>.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Opts

Low(x) == IF x \in 65..90 THEN x + 32 ELSE x
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Low(a[i]) = Low(b[i])
Space(x) == x = 32 \/ x \in 9..13
Digit(x) == x \in 48..57
NOpt == Len(Opts)
DefV == [i \in 1..NOpt |-> Opts[i].def]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE TrimL(_)
TrimL(b) == IF b # <<>> /\ Space(Head(b)) THEN TrimL(Tail(b)) ELSE b
RECURSIVE TrimR(_)
TrimR(b) == IF Len(b) > 1 /\ Space(b[Len(b)]) THEN TrimR(SubSeq(b, 1, Len(b) - 1)) ELSE b
First(b, x) == LET is == {i \in 1..Len(b) : b[i] = x} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
\* the bytes up to the first which is not in S
RECURSIVE Span(_, _)
Span(b, S) == IF b # <<>> /\ Head(b) \in S THEN <<Head(b)>> \o Span(Tail(b), S) ELSE <<>>
RECURSIVE DropZ(_)
DropZ(d) == IF d # <<>> /\ Head(d) = 0 THEN DropZ(Tail(d)) ELSE d
RECURSIVE DropZR(_)
DropZR(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN DropZR(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* ---- numbers: decimal digits, most significant first
RECURSIVE MulAdd(_, _, _)
\* the digits of ds * m + c
MulAdd(ds, m, c) ==
  IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE MulAdd(<<>>, m, c \div 10) \o <<c % 10>>)
  ELSE LET x == ds[Len(ds)] * m + c IN MulAdd(SubSeq(ds, 1, Len(ds) - 1), m, x \div 10) \o <<x % 10>>
HexVal(x) == IF Digit(x) THEN x - 48 ELSE Low(x) - 87
RECURSIVE OfBase(_, _, _)
OfBase(b, base, acc) == IF b = <<>> THEN acc ELSE OfBase(Tail(b), base, MulAdd(acc, base, HexVal(Head(b))))
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLe(Tail(a), Tail(b))
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
Text(ds) == IF ds = <<>> THEN <<48>> ELSE [i \in 1..Len(ds) |-> ds[i] + 48]
Max32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
Max16 == <<6, 5, 5, 3, 5>>
Bad == [k |-> "bad", v |-> <<>>]
Good(v) == [k |-> "good", v |-> v]
Any == [k |-> "any", v |-> <<>>]
\* unsigned numbers, decimal, hexadecimal (0x) or octal (0); what follows is ignored; a value without a number, or one
\* which does not fit, is bad. Values of twenty characters and more may be refused.
Num(b, max) ==
  LET t == TrimL(b)
      neg == t # <<>> /\ Head(t) = 45
      u == IF t # <<>> /\ Head(t) \in {43, 45} THEN Tail(t) ELSE t
      Hx == 48..57 \cup 65..70 \cup 97..102
      hex == Len(u) >= 3 /\ u[1] = 48 /\ Low(u[2]) = 120 /\ u[3] \in Hx
      oct == ~hex /\ u # <<>> /\ u[1] = 48
      ds == IF hex THEN Span(SubSeq(u, 3, Len(u)), Hx) ELSE IF oct THEN Span(u, 48..55) ELSE Span(u, 48..57)
      val == DropZ(OfBase(ds, IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10, <<>>))
  IN IF ds = <<>> THEN Bad
     ELSE IF neg /\ val # <<>> THEN Bad
     ELSE IF ~Le(val, max) THEN Bad
     ELSE Good(Text(val))
IntOf(b, max) == IF Len(b) >= 20 THEN {Bad, Num(b, max)} ELSE {Num(b, max)}
BoolOf(b) ==
  IF Same(b, <<116, 114, 117, 101>>) \/ b = <<49>> THEN Good(<<1>>)
  ELSE IF Same(b, <<102, 97, 108, 115, 101>>) \/ b = <<48>> THEN Good(<<0>>)
  ELSE Bad
RECURSIVE ToInt(_, _)
ToInt(b, acc) == IF b = <<>> THEN acc ELSE ToInt(Tail(b), acc * 10 + Head(b) - 48)
\* decimal numbers with fraction and exponent. Hexadecimal and more than fifteen digits: any.
\* Neither infinities nor "not a number" have to be refused here: <<9, <<>>, 0>>
NonFin == Good(<<9, <<>>, 0>>)
Dbl1(b) ==
  LET t == TrimL(b)
      neg == t # <<>> /\ Head(t) = 45
      u == IF t # <<>> /\ Head(t) \in {43, 45} THEN Tail(t) ELSE t
      ip == Span(u, 48..57)
      r1 == SubSeq(u, Len(ip) + 1, Len(u))
      dot == r1 # <<>> /\ Head(r1) = 46
      fp == IF dot THEN Span(Tail(r1), 48..57) ELSE <<>>
      r2 == IF dot THEN SubSeq(r1, Len(fp) + 2, Len(r1)) ELSE r1
      x1 == IF r2 # <<>> /\ Low(Head(r2)) = 101 THEN Tail(r2) ELSE <<>>
      xneg == x1 # <<>> /\ Head(x1) = 45
      xd == Span(IF x1 # <<>> /\ Head(x1) \in {43, 45} THEN Tail(x1) ELSE x1, 48..57)
      all == [i \in 1..(Len(ip) + Len(fp)) |-> IF i <= Len(ip) THEN ip[i] - 48 ELSE fp[i - Len(ip)] - 48]
      m == DropZ(all)
      sig == DropZR(m)
      ex == (IF Len(xd) > 6 THEN 0 ELSE IF xneg THEN 0 - ToInt(xd, 0) ELSE ToInt(xd, 0)) - Len(fp) + Len(m) - Len(sig)
  IN IF Len(u) >= 3 /\ (Same(SubSeq(u, 1, 3), <<105, 110, 102>>) \/ Same(SubSeq(u, 1, 3), <<110, 97, 110>>)) THEN NonFin
     ELSE IF Len(u) > 1 /\ Head(u) = 48 /\ Low(u[2]) = 120 THEN Any
     ELSE IF ip = <<>> /\ fp = <<>> THEN Bad
     ELSE IF sig = <<>> THEN Good(<<0, <<>>, 0>>)
     ELSE IF Len(xd) <= 6 /\ ex + Len(sig) > 310 THEN NonFin
     ELSE IF Len(sig) > 15 \/ Len(xd) > 6 \/ ex + Len(sig) > 300 \/ ex + Len(sig) < -300 THEN Any
     ELSE Good(<<IF neg THEN 1 ELSE 0, sig, ex>>)
Dbl(b) == LET r == Dbl1(b) IN IF Len(b) >= 60 \/ r = NonFin THEN {Bad, r} ELSE {r}
Str(b, max) == IF Len(b) > max - 1 THEN Bad ELSE Good(b)
\* the possible readings of a value which is not empty
Parse(o, b) ==
  CASE o.type = "str"  -> {Str(b, o.max)}
    [] o.type = "int"  -> IntOf(b, Max32)
    [] o.type = "port" -> IntOf(b, Max16)
    [] o.type = "bool" -> {BoolOf(b)}
    [] o.type = "dbl"  -> Dbl(b)

\* ---- lines
RECURSIVE Lines(_)
Lines(b) == IF b = <<>> THEN <<>>
  ELSE LET n == First(b, 10) IN IF n = 0 THEN <<b>> ELSE <<SubSeq(b, 1, n - 1)>> \o Lines(SubSeq(b, n + 1, Len(b)))
RECURSIVE SkipCr(_)
SkipCr(b) == IF b # <<>> /\ Head(b) = 13 THEN SkipCr(Tail(b)) ELSE b
NoSec == [sec |-> <<>>, known |-> FALSE]
\* x: values v, given g, section, ret; warn: a message is due; any: options with any value; stop: nothing more is read
Start(v, g) == [v |-> v, g |-> g, s |-> NoSec, ret |-> TRUE, warn |-> FALSE, any |-> {}, stop |-> FALSE, may |-> FALSE]
Default(x, i) == [x EXCEPT !.v[i] = Opts[i].def, !.g[i] = 0, !.any = @ \ {i}]
\* a value which cannot be read: the default, or it fails; then the rest may be read or not
BadValue(x, i, strict) ==
  IF ~strict THEN {[Default(x, i) EXCEPT !.warn = TRUE]}
  ELSE LET y == [x EXCEPT !.ret = FALSE, !.warn = TRUE] IN {y, [y EXCEPT !.stop = TRUE]}
Assign(x, i, b, strict) ==
  UNION {CASE r.k = "bad" -> BadValue(x, i, strict)
           [] r.k = "good" -> {[x EXCEPT !.v[i] = r.v, !.g[i] = Opts[i].giv, !.any = @ \ {i}]}
           [] OTHER -> {[x EXCEPT !.any = @ \cup {i}, !.may = TRUE]} : r \in Parse(Opts[i], b)}
Option(x, b, strict, wo) ==
  LET e == First(b, 61) IN
  IF e = 0 THEN LET y == [x EXCEPT !.warn = TRUE] IN
                \* not an option: skipped with a message; if values have to be right, this may fail too
                IF strict THEN {y, [y EXCEPT !.ret = FALSE], [y EXCEPT !.ret = FALSE, !.stop = TRUE]} ELSE {y}
  ELSE IF ~x.s.known THEN {x}
  ELSE LET key == TrimR(SubSeq(b, 1, e - 1))
           v1 == TrimL(SubSeq(b, e + 1, Len(b)))
           v2 == IF v1 # <<>> /\ v1[Len(v1)] = 13 THEN SubSeq(v1, 1, Len(v1) - 1) ELSE v1
           is == {i \in 1..NOpt : Same(Opts[i].sec, x.s.sec) /\ Same(Opts[i].name, key)}
       IN IF is = {} THEN {[x EXCEPT !.warn = @ \/ wo]}
          ELSE LET i == CHOOSE k \in is : \A j \in is : k <= j IN
               IF v2 = <<>> THEN {Default(x, i)} ELSE Assign(x, i, v2, strict)
Section(x, b, ws) ==
  LET c == First(b, 93) rest == SubSeq(b, c + 1, Len(b)) IN
  IF c = 0 \/ rest \notin {<<>>, <<13>>} THEN {[x EXCEPT !.ret = FALSE, !.stop = TRUE, !.warn = TRUE]}
  ELSE LET nm == SubSeq(b, 2, c - 1) k == \E i \in 1..NOpt : Same(Opts[i].sec, nm) IN
       {[x EXCEPT !.s = [sec |-> nm, known |-> k], !.warn = @ \/ (ws /\ ~k)]}
Line(x, l, strict, ws, wo) ==
  LET b == SkipCr(l) IN
  IF x.stop \/ b = <<>> \/ Head(b) \in {35, 59} THEN {x}
  ELSE IF Head(b) = 91 THEN Section(x, b, ws)
  ELSE Option(x, b, strict, wo)
RECURSIVE Fold(_, _, _, _, _)
Fold(xs, ls, strict, ws, wo) ==
  IF ls = <<>> THEN xs ELSE Fold(UNION {Line(x, Head(ls), strict, ws, wo) : x \in xs}, Tail(ls), strict, ws, wo)
\* the possible outcomes of reading a file with the bytes b
Read(v, g, b, strict, ws, wo) == Fold({Start(v, g)}, Lines(b), strict, ws, wo)
=============================================================================
