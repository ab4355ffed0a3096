------------------------------ MODULE CfgTrace ------------------------------
(* Recorded uses of util/cfgfile.c (harness/drv_cfg.c): files, directories,      *)
(* defaults, setters, checks, writing and reading back.                          *)
EXTENDS TraceBase
VARIABLES tr, l, s
vars == <<tr, l, s>>
M == Meta(tr)
C == INSTANCE Cfg WITH Opts <- M.opts
N == Len(M.opts)
\* v: values, g: given; keep: the values before they were written; w: what has to be read back
Init == tr \in 1..NTraces /\ l = 1 /\ s = [v |-> <<>>, g |-> <<>>, keep |-> <<>>, kg |-> <<>>, wsec |-> <<>>]
Nul(b) == \E i \in 1..Len(b) : b[i] = 0
\* section Alpha repairs Num
Two(t) == IF t \in {<<48>>, <<49>>} THEN <<50>> ELSE t
Fix(v) == [v EXCEPT ![2] = Two(@)]
Match(x, e) == /\ \A i \in 1..N : i \in x.any \/ e.v[i] = Fix(x.v)[i]
               /\ \A i \in 1..N : i \in x.any \/ e.g[i] = x.g[i]
               /\ x.may \/ (e.ret = 1) = x.ret
               /\ x.warn => e.log = 1
Post(e) == [s EXCEPT !.v = e.v, !.g = e.g]
ReadOk(e, xs) == e.fix = 1 /\ e.unm = 0 /\ \E x \in xs : Match(x, e)

\* ---- directories: regular files and links called <number>...conf, by their number
Num(f) == C!DropZ([i \in 1..Len(C!Span(f.n, 48..57)) |-> f.n[i] - 48])
Chosen(f) == /\ f.kind # "dir" /\ Len(f.n) >= 5 /\ C!Digit(f.n[1])
             /\ SubSeq(f.n, Len(f.n) - 4, Len(f.n)) = <<46, 99, 111, 110, 102>>
RECURSIVE Dir(_, _, _)
\* what may come out of the files fs, of the states xs which read the ones before
Dir(xs, fs, e) ==
  IF fs = {} THEN xs
  ELSE LET firsts == {i \in fs : \A j \in fs : C!Le(Num(e.files[i]), Num(e.files[j]))} IN
       UNION {LET f == e.files[i] IN
              Dir(UNION {IF x.stopped THEN {x}
                         ELSE IF f.kind = "none" THEN {[x EXCEPT !.ret = FALSE, !.stopped = e.stop = 1, !.warn = TRUE]}
                         ELSE {[v |-> Fix(y.v), g |-> y.g, ret |-> x.ret /\ y.ret, warn |-> x.warn \/ y.warn, any |-> x.any \cup y.any, may |-> x.may \/ y.may,
                                stopped |-> ~y.ret /\ e.stop = 1] : y \in C!Read(x.v, x.g, f.b, e.strict = 1, TRUE, TRUE)} : x \in xs},
                  fs \ {i}, e) : i \in firsts}
DirOk(e) ==
  IF e.missing = 1 THEN e.ret = 0 /\ e.v = s.v /\ e.g = s.g
  ELSE LET fs == {i \in 1..Len(e.files) : Chosen(e.files[i])}
           x0 == [v |-> s.v, g |-> s.g, ret |-> TRUE, warn |-> FALSE, any |-> {}, may |-> FALSE, stopped |-> FALSE]
       IN e.unm = 0 /\ \E x \in Dir({x0}, fs, e) : Match([x EXCEPT !.v = IF fs = {} THEN @ ELSE Fix(@)], e)

\* ---- which values a file can express
Expressible(i, v, g) ==
  LET o == M.opts[i] IN
  /\ (o.dempty = 1 /\ g[i] = 0) => v[i] = o.def
  /\ o.type = "str" => /\ v[i] # <<>> \/ o.def = <<>>
                       /\ v[i] # <<>> => ~C!Space(Head(v[i])) /\ v[i][Len(v[i])] # 13
                       /\ \A k \in 1..Len(v[i]) : v[i][k] # 10

Step(e) ==
  CASE e.e = "defaults" -> e.v = C!DefV /\ (\A i \in 1..N : e.g[i] = 0) /\ s' = Post(e)
    [] e.e = "values" -> s' = Post(e)
    [] e.e = "set" -> LET o == M.opts[e.i]
                          x == IF o.type = "str" THEN SubSeq(e.x, 1, C!Min2(Len(e.x), o.max - 1)) ELSE e.x
                      IN e.v = [s.v EXCEPT ![e.i] = x] /\ e.g = s.g /\ s' = Post(e)
    [] e.e = "check" -> LET a == s.v[4] # <<48>> b == s.v[2] # <<51>> IN
                        /\ (e.ret = 1) = (a /\ b) /\ (e.ret = 1 => e.a = 1 /\ e.b = 1) /\ s' = s
    [] e.e = "read" -> (Nul(e.b) \/ ReadOk(e, C!Read(s.v, s.g, e.b, e.strict = 1, e.ws = 1, e.wo = 1))) /\ s' = Post(e)
    [] e.e = "noread" -> e.ret = 0 /\ e.log = 1 /\ e.v = s.v /\ e.g = s.g /\ s' = s
    [] e.e = "none" -> e.ret = 1 /\ e.v = s.v /\ e.g = s.g /\ s' = s
    [] e.e = "dir" -> DirOk(e) /\ s' = Post(e)
    \* enumerated files: only the double option "a" of Alpha is ever reached, which was 7
    [] e.e = "e" -> LET v == [s.v EXCEPT ![5] = <<0, <<7>>, 0>>] IN
                    /\ \E x \in C!Read(v, s.g, e.b, e.s = 1, TRUE, TRUE) :
                         (5 \in x.any \/ x.v[5] = e.d) /\ (x.may \/ x.ret = (e.r = 1))
                    /\ s' = s
    [] e.e = "write" -> /\ e.ret = 1 /\ e.v = s.v /\ e.g = s.g
                        /\ s' = [s EXCEPT !.keep = s.v, !.kg = s.g, !.wsec = e.sec]
    \* what was read back on top of the defaults: the values which were written
    [] e.e = "same" -> LET ok(i) == Expressible(i, s.keep, s.kg) /\ (s.wsec # <<>> => s.wsec = M.opts[i].sec) IN
                       /\ \A i \in 1..N : ok(i) => s.v[i] = s.keep[i]
                       /\ \A i \in 1..N : ok(i) /\ M.opts[i].dempty = 1 => s.g[i] = s.kg[i]
                       /\ s' = [s EXCEPT !.keep = <<>>, !.kg = <<>>]
    [] e.e = "wfail" -> e.ret = 0 /\ e.v = s.v /\ e.g = s.g /\ s' = s
    [] OTHER -> FALSE
Next == l <= NEv(tr) /\ l' = l + 1 /\ tr' = tr /\ Step(Evs(tr)[l]) /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
