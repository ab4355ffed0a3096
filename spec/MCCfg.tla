------------------------------- MODULE MCCfg --------------------------------
(* All files of up to MaxLines lines out of a pool: what the meaning of a file    *)
(* (Cfg) does not depend on, and that everything which is written is read back.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLines
O(sec, name, type, max, giv, dempty, def) == [sec |-> sec, name |-> name, type |-> type, max |-> max, giv |-> giv, dempty |-> dempty, def |-> def]
TheOpts == << O(<<97>>, <<110>>, "int", 0, 0, 0, <<55>>),              \* [a] n = 7
              O(<<97>>, <<115>>, "str", 3, 0, 0, <<100>>),             \* [a] s = d
              O(<<66>>, <<78>>, "port", 0, 1, 1, <<48>>),              \* [B] N
              O(<<66>>, <<102>>, "bool", 0, 0, 0, <<1>>),              \* [B] f = true
              O(<<66>>, <<120>>, "dbl", 0, 1, 0, <<0, <<1, 5>>, -1>>) >>  \* [B] x = 1.5
C == INSTANCE Cfg WITH Opts <- TheOpts
Pool == << <<91, 97, 93>>, <<91, 66, 93>>, <<91, 113, 93>>, <<91, 97>>,            \* [a] [B] [q] [a
           <<110, 61, 49>>, <<110, 32, 61, 32, 50>>, <<110, 61>>, <<110, 61, 122>>, \* n=1  n = 2  n=  n=z
           <<115, 61, 97, 98>>, <<115, 61, 97, 98, 99>>,                            \* s=ab s=abc
           <<102, 61, 48>>, <<120, 61, 45, 50, 46, 53, 48>>, <<110, 61, 55, 48, 48, 48, 48>>,  \* f=0 x=-2.50 n=70000
           <<35, 110, 61, 51>>, <<>>, <<110>>, <<113, 61, 49>> >>                   \* #n=3, nothing, n, q=1
VARIABLES ls
vars == <<ls>>
Init == ls = <<>>
Next == Len(ls) < MaxLines /\ \E i \in 1..Len(Pool) : ls' = Append(ls, Pool[i])
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_, _)
Join(x, eol) == IF x = <<>> THEN <<>> ELSE Head(x) \o eol \o Join(Tail(x), eol)
LF == <<10>>
G0 == [i \in 1..5 |-> 0]
\* from some values which are not the defaults
V0 == << <<57>>, <<121>>, <<57>>, <<0>>, <<0, <<3>>, 0>> >>
R(b, strict) == C!Read(V0, G0, b, strict, TRUE, TRUE)
\* what a reader sees
Out(b, strict) == {[v |-> x.v, g |-> x.g, ret |-> x.ret, warn |-> x.warn, stop |-> x.stop] : x \in R(b, strict)}
B == Join(ls, LF)
Both(P(_)) == P(TRUE) /\ P(FALSE)

\* lines may end with CR LF; the last line need not end
Crlf == \A st \in BOOLEAN : Out(Join(ls, <<13, 10>>), st) = Out(B, st)
Unterminated == B # <<>> => \A st \in BOOLEAN : Out(SubSeq(B, 1, Len(B) - 1), st) = Out(B, st)
\* comments and empty lines say nothing, wherever they are
With(k, x) == SubSeq(ls, 1, k) \o <<x>> \o SubSeq(ls, k + 1, Len(ls))
Comments == \A st \in BOOLEAN : \A k \in 0..Len(ls) : \A x \in {<<>>, <<59, 91>>, <<35>>, <<13>>} : Out(Join(With(k, x), LF), st) = Out(B, st)
\* names of sections and options in any case
Up(l) == LET e == C!First(l, 61) n == IF e = 0 THEN Len(l) ELSE e IN
         [i \in 1..Len(l) |-> IF i <= n /\ l[i] \in 97..122 THEN l[i] - 32 ELSE l[i]]
Cases == \A st \in BOOLEAN : Out(Join([i \in 1..Len(ls) |-> Up(ls[i])], LF), st) = Out(B, st)
\* an option which no line names keeps its value
Names(l, i) == LET e == C!First(l, 61) IN e # 0 /\ C!Same(C!TrimR(SubSeq(l, 1, e - 1)), TheOpts[i].name)
Untouched == \A st \in BOOLEAN : \A x \in R(B, st) : \A i \in 1..5 :
               (\A k \in 1..Len(ls) : ~Names(ls[k], i)) => x.v[i] = V0[i] /\ x.g[i] = 0
\* nothing is assigned outside of its section
Sections == \A st \in BOOLEAN : \A x \in R(B, st) : \A i \in 1..5 :
               (\A k \in 1..Len(ls) : ls[k] # <<91>> \o TheOpts[i].sec \o <<93>>) => x.v[i] = V0[i]
\* the last word counts, whatever was before
Last == \A st \in BOOLEAN : \A x \in R(Join(ls \o << <<91, 97, 93>>, <<110, 61, 49>> >>, LF), st) : x.stop \/ x.v[1] = <<49>>
\* a file which was right as a whole says the same to a strict reader and to one who takes the defaults
Agree == \A x \in R(B, TRUE) : (x.ret /\ \A y \in R(B, TRUE) : y.ret) => \E y \in R(B, FALSE) : y.v = x.v /\ y.g = x.g /\ y.ret
\* who takes the defaults only fails at a section which is none
Lenient == \A x \in R(B, FALSE) : ~x.ret => x.stop /\ \E k \in 1..Len(ls) : ls[k] # <<>> /\ Head(ls[k]) = 91
\* failing is never silent
Loud == \A st \in BOOLEAN : \A x \in R(B, st) : ~x.ret => x.warn
\* values stay in their types
Typed == \A st \in BOOLEAN : \A x \in R(B, st) :
           /\ C!Le([k \in 1..Len(x.v[1]) |-> x.v[1][k] - 48], C!Max32) /\ Len(x.v[2]) <= 2
           /\ C!Le([k \in 1..Len(x.v[3]) |-> x.v[3][k] - 48], C!Max16) /\ x.v[4] \in {<<0>>, <<1>>}
\* ---- what is written: sections with all options, a default for one which was not given
TextOf(i, v) == CASE TheOpts[i].type = "bool" -> IF v = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
                  [] TheOpts[i].type = "dbl" -> (IF v[1] = 1 THEN <<45>> ELSE <<>>) \o C!Text(v[2])
                       \o <<101>> \o (IF v[3] < 0 THEN <<45, 48 - v[3]>> ELSE <<48 + v[3]>>)
                  [] OTHER -> v
RECURSIVE WriteOpts(_, _, _, _)
WriteOpts(v, g, i, n) ==
  IF i > n THEN <<>>
  ELSE TheOpts[i].name \o <<32, 61, 32>> \o (IF TheOpts[i].dempty = 1 /\ g[i] = 0 THEN <<>> ELSE TextOf(i, v[i])) \o <<10>> \o WriteOpts(v, g, i + 1, n)
Write(v, g) == <<91, 97, 93, 10>> \o WriteOpts(v, g, 1, 2) \o <<10, 91, 66, 93, 10>> \o WriteOpts(v, g, 3, 5)
WriteRead ==
  \A n \in {<<48>>, <<52, 50>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>} : \A t \in {<<120>>, <<59, 61>>, <<91, 93>>, <<97, 32>>} :
    \A p \in {<<0, <<48>>>>, <<1, <<48>>>>, <<1, <<54, 53, 53, 51, 53>>>>} : \A f \in {<<0>>, <<1>>} :
      \A d \in {<<0, <<>>, 0>>, <<1, <<4, 7, 1, 2>>, -2>>, <<0, <<1>>, 3>>} :
        LET v == <<n, t, p[2], f, d>> g == <<0, 0, p[1], 0, 1>> IN
        \A st \in BOOLEAN : \A x \in C!Read(C!DefV, G0, Write(v, g), st, TRUE, TRUE) : x.v = v /\ x.g = g /\ x.ret /\ ~x.warn
WriteInv == ls = <<>> => WriteRead
=============================================================================
