-------------------------------- MODULE MCList -------------------------------
(* The algorithms of util/list.h on links (next, previous, counter, lazily      *)
(* counted) against the sequences they stand for; the transitions are replayed  *)
(* on the real lists. Fixed: as repaired.                                        *)
EXTENDS List, Integers, TLC
CONSTANTS NE, NL, Double, Counted, Fixed, Dump
VARIABLES nx, pv, tail, len, taint, q, last
vars == <<nx, pv, tail, len, taint, q>>
E == 1..NE
L == 1..NL
A(l) == 10 + l \* the anchor of a list
Node == E \cup {A(l) : l \in L}
\* the links of l as followed from the anchor, at most k of them
RECURSIVE Follow(_, _, _, _)
Follow(f, n, l, k) == IF n = A(l) \/ k = 0 THEN <<>> ELSE <<n>> \o Follow(f, f[n], l, k - 1)
Fwd(l) == Follow(nx, nx[A(l)], l, NE + 1)
Bwd(l) == Follow(pv, pv[A(l)], l, NE + 1)
In(e) == \E l \in L : e \in ToSet(q[l])
N(l, e) == IF e = 0 THEN A(l) ELSE e
Init == /\ nx = [n \in Node |-> n] /\ pv = [n \in Node |-> n] /\ tail = [l \in L |-> A(l)]
        /\ len = [l \in L |-> 0] /\ taint = [l \in L |-> FALSE] /\ q = [l \in L |-> <<>>] /\ last = ""
Op(o, a, x, y) == last' = o \o ":" \o ToString(a) \o ":" \o ToString(x) \o ":" \o ToString(y) /\ q' = Effect(q, o, a, x, y)
\* ---- double linked
InsD(a, p, k) == nx' = [nx EXCEPT ![k] = nx[p], ![p] = k] /\ pv' = [[pv EXCEPT ![k] = p] EXCEPT ![nx[p]] = k]
UnlD(a, k) == IF Fixed /\ k = A(a) THEN UNCHANGED <<nx, pv>>
              ELSE nx' = [nx EXCEPT ![pv[k]] = nx[k]] /\ pv' = [pv EXCEPT ![nx[k]] = pv[k]]
CntD(a, d) == len' = [len EXCEPT ![a] = IF taint[a] THEN 0 ELSE @ + d] /\ UNCHANGED <<taint, tail>>
UnlDC(a, k) == UnlD(a, k) /\ CntD(a, IF k = A(a) /\ (Fixed \/ (len[a] = 0 /\ ~taint[a])) THEN 0 ELSE -1)
FromD(a, n, p) ==
  IF p # A(a)
  THEN /\ nx' = [nx EXCEPT ![A(n)] = p, ![pv[A(a)]] = A(n), ![pv[p]] = A(a)]
       /\ pv' = [pv EXCEPT ![A(n)] = pv[A(a)], ![A(a)] = pv[p], ![p] = A(n)]
  ELSE nx' = [nx EXCEPT ![A(n)] = A(n)] /\ pv' = [pv EXCEPT ![A(n)] = A(n)]
UntilD(a, n, p) ==
  IF p # nx[A(a)]
  THEN /\ nx' = [nx EXCEPT ![A(n)] = nx[A(a)], ![pv[p]] = A(n), ![A(a)] = p]
       /\ pv' = [pv EXCEPT ![nx[A(a)]] = A(n), ![A(n)] = pv[p], ![p] = A(a)]
  ELSE nx' = [nx EXCEPT ![A(n)] = A(n)] /\ pv' = [pv EXCEPT ![A(n)] = A(n)]
\* number of links after the cut
Count(f, l) == Len(Follow(f, f[A(l)], l, NE + 1))
LFromDC(a, n, p) == /\ FromD(a, n, p) /\ tail' = tail
                    /\ (IF p # A(a) THEN taint' = [taint EXCEPT ![a] = TRUE, ![n] = TRUE] /\ len' = [len EXCEPT ![a] = 0, ![n] = 0]
                        ELSE taint' = [taint EXCEPT ![n] = FALSE] /\ len' = [len EXCEPT ![n] = 0])
LUntilDC(a, n, p) == UntilD(a, n, p) /\ tail' = tail /\ taint' = [taint EXCEPT ![a] = TRUE, ![n] = TRUE]
                     /\ len' = [len EXCEPT ![a] = 0, ![n] = 0]
FixDC(a, n) == /\ taint' = [taint EXCEPT ![a] = FALSE, ![n] = FALSE] /\ tail' = tail
               /\ len' = [len EXCEPT ![n] = Count(nx', n),
                                     ![a] = (IF Fixed /\ taint[a] THEN Count(nx, a) ELSE @) - Count(nx', n)]
CPushD(a, b) == IF nx[A(b)] = A(b) THEN UNCHANGED <<nx, pv>>
                ELSE /\ nx' = [nx EXCEPT ![pv[A(b)]] = A(a), ![pv[A(a)]] = nx[A(b)], ![A(b)] = A(b)]
                     /\ pv' = [pv EXCEPT ![nx[A(b)]] = pv[A(a)], ![A(a)] = pv[A(b)], ![A(b)] = A(b)]
CUnshiftD(a, b) == IF nx[A(b)] = A(b) THEN UNCHANGED <<nx, pv>>
                   ELSE /\ nx' = [nx EXCEPT ![pv[A(b)]] = nx[A(a)], ![A(a)] = nx[A(b)], ![A(b)] = A(b)]
                        /\ pv' = [[pv EXCEPT ![nx[A(b)]] = A(a), ![A(b)] = A(b)] EXCEPT ![nx[A(a)]] = pv[A(b)]]
CatDC(a, b) == /\ (IF nx[A(b)] = A(b) THEN UNCHANGED <<len, taint>>
                   ELSE /\ taint' = [taint EXCEPT ![a] = @ \/ taint[b], ![b] = FALSE]
                        /\ len' = [len EXCEPT ![a] = IF taint[a] \/ taint[b] THEN 0 ELSE @ + len[b], ![b] = 0])
               /\ tail' = tail
\* ---- single linked: a pointer to the last link
ShiftS(a) == LET k == nx[A(a)] IN
             /\ nx' = [nx EXCEPT ![A(a)] = nx[k]]
             /\ tail' = (IF nx[k] = A(a) THEN [tail EXCEPT ![a] = A(a)] ELSE tail)
PushS(a, k) == nx' = [nx EXCEPT ![k] = A(a), ![tail[a]] = k] /\ tail' = [tail EXCEPT ![a] = k]
UnshiftS(a, k) == /\ nx' = [nx EXCEPT ![k] = nx[A(a)], ![A(a)] = k]
                  /\ tail' = (IF nx[A(a)] = A(a) THEN [tail EXCEPT ![a] = k] ELSE tail)
CPushS(a, b) == IF nx[A(b)] = A(b) THEN UNCHANGED <<nx, tail>>
                ELSE /\ nx' = [[nx EXCEPT ![tail[b]] = A(a)] EXCEPT ![tail[a]] = nx[A(b)], ![A(b)] = A(b)]
                     /\ tail' = [tail EXCEPT ![a] = tail[b], ![b] = A(b)]
CUnshiftS(a, b) == IF nx[A(b)] = A(b) THEN UNCHANGED <<nx, tail>>
                   ELSE /\ nx' = [nx EXCEPT ![tail[b]] = nx[A(a)], ![A(a)] = nx[A(b)], ![A(b)] = A(b)]
                        /\ tail' = [tail EXCEPT ![a] = IF nx[A(a)] = A(a) THEN (IF Fixed THEN tail[b] ELSE nx[A(b)]) ELSE @,
                                               ![b] = A(b)]
CntS(a, d) == len' = [len EXCEPT ![a] = @ + d] /\ UNCHANGED <<pv, taint>>
CatS(a, b) == len' = [len EXCEPT ![a] = @ + len[b], ![b] = 0] /\ UNCHANGED <<pv, taint>>
\* ---- operations
NextD == \E a \in L :
  \/ \E e \in {x \in E : ~In(x)} :
       \/ Op("push", a, e, 0) /\ InsD(a, pv[A(a)], e) /\ CntD(a, 1)
       \/ Op("unshift", a, e, 0) /\ InsD(a, A(a), e) /\ CntD(a, 1)
       \/ \E y \in {0} \cup ToSet(q[a]) : Op("insert", a, e, y) /\ InsD(a, pv[N(a, y)], e) /\ CntD(a, 1)
  \/ Op("shift", a, 0, 0) /\ UnlDC(a, nx[A(a)])
  \/ Op("pop", a, 0, 0) /\ UnlDC(a, pv[A(a)])
  \/ \E y \in {0} \cup ToSet(q[a]) : Op("unlink", a, y, 0) /\ UnlDC(a, N(a, y))
  \/ \E b \in L \ {a} :
       \/ Op("cpush", a, b, 0) /\ CPushD(a, b) /\ CatDC(a, b)
       \/ Op("cunshift", a, b, 0) /\ CUnshiftD(a, b) /\ CatDC(a, b)
       \/ /\ q[b] = <<>>
          /\ \E y \in {0} \cup ToSet(q[a]) :
               \/ Op("from", a, b, y) /\ FromD(a, b, N(a, y)) /\ FixDC(a, b)
               \/ Op("until", a, b, y) /\ UntilD(a, b, N(a, y)) /\ FixDC(a, b)
               \/ Counted /\ Op("lfrom", a, b, y) /\ LFromDC(a, b, N(a, y))
               \/ Counted /\ Op("luntil", a, b, y) /\ LUntilDC(a, b, N(a, y))
  \/ /\ Counted /\ Op("length", a, 0, 0) /\ taint' = [taint EXCEPT ![a] = FALSE]
     /\ len' = [len EXCEPT ![a] = IF taint[a] THEN Count(nx, a) ELSE @] /\ UNCHANGED <<nx, pv, tail>>
NextS == \E a \in L :
  \/ \E e \in {x \in E : ~In(x)} :
       \/ Op("push", a, e, 0) /\ PushS(a, e) /\ CntS(a, 1)
       \/ Op("unshift", a, e, 0) /\ UnshiftS(a, e) /\ CntS(a, 1)
  \/ Op("shift", a, 0, 0) /\ ShiftS(a) /\ CntS(a, IF nx[A(a)] = A(a) THEN 0 ELSE -1)
  \/ \E b \in L \ {a} :
       \/ Op("cpush", a, b, 0) /\ CPushS(a, b) /\ CatS(a, b)
       \/ Op("cunshift", a, b, 0) /\ CUnshiftS(a, b) /\ CatS(a, b)
  \/ Counted /\ Op("length", a, 0, 0) /\ UNCHANGED <<nx, pv, tail, len, taint>>
Next == IF Double THEN NextD ELSE NextS
Spec == Init /\ [][Next]_<<vars, last>>
Norm == <<q, taint>>
Show == ~Dump \/ PrintT("EDGE|" \o ToString(Norm) \o "|" \o last' \o "|" \o ToString(Norm'))
Live == {A(l) : l \in L} \cup {e \in E : In(e)}
View == <<q, taint, len, tail, [n \in Live |-> <<nx[n], pv[n]>>]>>
\* the links are the sequence, forwards and backwards, and are counted
Inv == \A l \in L :
  /\ Fwd(l) = q[l]
  /\ (IF Double THEN Bwd(l) = Rev(q[l]) ELSE tail[l] = (IF q[l] = <<>> THEN A(l) ELSE q[l][Len(q[l])]))
  /\ (Counted /\ ~taint[l] => len[l] = Len(q[l]))
=============================================================================
