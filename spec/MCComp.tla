------------------------------- MODULE MCComp -------------------------------
(* The algorithm of the component manager (registration of dependencies,      *)
(* sequentialization, construction, start, stop with deferral, roll back) for *)
(* every set of NC components, checked against the rules of Comp.tla. Every    *)
(* configuration is printed as a script for harness/drv_comp.c when EMIT = 1.  *)
EXTENDS Comp, TLC, IOUtils
CONSTANTS NC, Rounds, Sparse
VARIABLES cf, pc, list, con, sta, i, rd, dfr, ps, prog, new
vars == <<cf, pc, list, con, sta, i, rd, dfr, ps, prog, new>>
C == 1..NC
Roots == {q \in UNION {[1..k -> C] : k \in 1..NC} : \A a, b \in DOMAIN q : a # b => q[a] # q[b]}
Rels == IF Sparse THEN {d \in [C -> SUBSET C] : \A c \in C : c \notin d[c] /\ Cardinality(d[c]) <= 1}
        ELSE {d \in [C -> SUBSET C] : \A c \in C : c \notin d[c]}
Confs == [deps : Rels, roots : Roots, en : IF Sparse THEN {[c \in C |-> TRUE]} ELSE [C -> BOOLEAN],
          fc : 0..NC, fs : 0..NC, fo : 0..NC, fk : {1, 3}]
Useful(x) == (x.fo = 0 => x.fk = 1) /\ (x.fc # 0 => x.fs = 0 /\ x.fo = 0)
D == cf.deps
\* registration of missing dependencies, in the order they are found
RECURSIVE Reg(_, _)
Reg(q, k) == IF k > Len(q) THEN q
             ELSE LET miss == {c \in D[q[k]] : c \notin SetOf(q)}
                      RECURSIVE Add(_, _)
                      Add(z, S) == IF S = {} THEN z ELSE LET c == CHOOSE c \in S : \A d \in S : c <= d
                                                        IN Add(Append(z, c), S \ {c})
                  IN Reg(Add(q, miss), k + 1)
RECURSIVE Seqz(_, _)
Seqz(todo, done) ==
  IF todo = <<>> THEN done
  ELSE LET ready == {k \in 1..Len(todo) : D[todo[k]] \subseteq SetOf(done)}
       IN IF ready = {} THEN <<>>
          ELSE LET k == CHOOSE k \in ready : \A j \in ready : k <= j
               IN Seqz(Without(todo, todo[k]), Append(done, todo[k]))

Init == /\ cf \in {x \in Confs : Useful(x)} /\ pc = "fix" /\ list = <<>> /\ con = <<>> /\ sta = <<>> /\ i = 0 /\ rd = 1
        /\ dfr = cf.fk /\ ps = 0 /\ prog = FALSE /\ new = {}
        /\ IF "EMIT" \in DOMAIN IOEnv THEN PrintT(<<"SCEN", cf.deps, cf.roots, cf.en, cf.fc, cf.fs, cf.fo, cf.fk>>) ELSE TRUE
Fix == /\ pc = "fix" /\ list' = Seqz(Reg(cf.roots, 1), <<>>)
       /\ Assert((list' = <<>>) <=> Cyclic(D, SetOf(cf.roots)), "cycle detection")
       /\ Assert(list' # <<>> => SetOf(list') = Close(D, SetOf(cf.roots)), "registration")
       /\ pc' = IF list' = <<>> THEN "emerg" ELSE "check"
       /\ UNCHANGED <<cf, con, sta, i, rd, dfr, ps, prog, new>>
Check == /\ pc = "check"
         /\ pc' = IF \E c \in SetOf(list) : cf.en[c] /\ \E d \in D[c] : ~cf.en[d] THEN "emerg" ELSE "init"
         /\ i' = 1 /\ UNCHANGED <<cf, list, con, sta, rd, dfr, ps, prog, new>>
InitStep ==
  /\ pc = "init"
  /\ IF i > Len(list) THEN pc' = "start" /\ i' = 1 /\ UNCHANGED con
     ELSE LET c == list[i] IN
          IF ~cf.en[c] THEN i' = i + 1 /\ UNCHANGED <<pc, con>>
          ELSE IF rd = 1 /\ cf.fc = c THEN pc' = "undo" /\ UNCHANGED <<i, con>>
          ELSE con' = Append(con, c) /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<cf, list, sta, rd, dfr, ps, prog, new>>
Undo == \* destruct everything before list[i], backwards
  /\ pc = "undo"
  /\ IF i = 1 THEN /\ Assert(con = <<>>, "undone")
                   /\ rd' = rd + 1 /\ pc' = (IF rd < Rounds THEN "init" ELSE "end") /\ UNCHANGED <<i, con>>
     ELSE i' = i - 1 /\ con' = Without(con, list[i - 1]) /\ UNCHANGED <<rd, pc>>
  /\ UNCHANGED <<cf, list, sta, dfr, ps, prog, new>>
StartStep ==
  /\ pc = "start"
  /\ IF i > Len(list) THEN pc' = "stop" /\ ps' = 1 /\ UNCHANGED <<i, sta, new>>
     ELSE LET c == list[i] IN
          IF c \notin SetOf(con) \/ c \in SetOf(sta) THEN i' = i + 1 /\ UNCHANGED <<pc, sta, ps, new>>
          ELSE IF rd = 1 /\ cf.fs = c THEN pc' = "ustop" /\ ps' = 1 /\ UNCHANGED <<i, sta, new>>
          ELSE sta' = Append(sta, c) /\ new' = new \cup {c} /\ i' = i + 1 /\ UNCHANGED <<pc, ps>>
  /\ prog' = FALSE /\ UNCHANGED <<cf, list, con, rd, dfr>>
\* one pass: in reverse order from list[i - 1]
StopPass ==
  /\ pc \in {"stop", "ustop"}
  /\ LET F == {c \in SetOf(sta) : c = cf.fo /\ dfr > 0}
         up == {c \in SetOf(sta) : \E k \in 1..i - 1 : list[k] = c}
         ok == up \ F
         left == up \cap F
     IN /\ dfr' = IF left # {} THEN dfr - 1 ELSE dfr
        /\ sta' = SelectSeq(sta, LAMBDA c : c \notin ok)
        /\ IF left = {} \/ (ps > 1 /\ ok = {})
           THEN pc' = (IF pc = "stop" /\ left # {} THEN "again" ELSE IF left # {} THEN "again" ELSE "des") /\ ps' = 1
           ELSE pc' = pc /\ ps' = ps + 1
  /\ UNCHANGED <<cf, list, con, i, rd, prog, new>>
Again == /\ pc = "again" /\ pc' = "stop" /\ i' = Len(list) + 1
         /\ UNCHANGED <<cf, list, con, sta, rd, dfr, ps, prog, new>>
Des == /\ pc = "des" /\ Assert(sta = <<>>, "stopped")
       /\ con' = <<>> /\ rd' = rd + 1 /\ i' = 1 /\ new' = {} /\ pc' = (IF rd < Rounds THEN "init" ELSE "end")
       /\ UNCHANGED <<cf, list, sta, dfr, ps, prog>>
Next == Fix \/ Check \/ InitStep \/ Undo \/ StartStep \/ StopPass \/ Again \/ Des
Spec == Init /\ [][Next]_vars
\* the promises
Ups == /\ \A k \in 1..Len(con) : (D[con[k]]) \subseteq {con[j] : j \in 1..k - 1}
       /\ SetOf(sta) \subseteq SetOf(con)
       /\ pc = "start" => \A k \in 1..Len(sta) : D[sta[k]] \subseteq {sta[j] : j \in 1..k - 1}
       /\ \A c \in SetOf(con) : cf.en[c]
NoRefused == pc \in {"init", "start", "stop"} => ~Refused(D, cf.en, SetOf(list)) /\ ~Cyclic(D, SetOf(list))
Complete == /\ pc = "stop" /\ ps = 1 /\ i = Len(list) + 1 /\ dfr = cf.fk => SetOf(sta) = SetOf(con)
            /\ pc = "start" => SetOf(con) = {c \in SetOf(list) : cf.en[c]}
Inv == Ups /\ NoRefused /\ Complete
=============================================================================
