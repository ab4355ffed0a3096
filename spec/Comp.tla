-------------------------------- MODULE Comp --------------------------------
(* Components and their dependencies: what has to be registered, which sets  *)
(* of components are refused, which component may be started / stopped next. *)
(* D is a function from components to the set of their dependencies.          *)
EXTENDS Naturals, FiniteSets, Sequences
RECURSIVE Close(_, _)
Close(D, S) == LET T == S \cup UNION {D[c] : c \in S} IN IF T = S THEN S ELSE Close(D, T)
Cyclic(D, S) == \E c \in Close(D, S) : c \in Close(D, D[c])
Needs(D, c) == Close(D, D[c])
Refused(D, en, S) == \E c \in S : en[c] /\ \E d \in D[c] : ~en[d]
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* c may be brought up when its dependencies (as far as relevant) are up
UpOk(D, rel, up, c) == c \in rel /\ c \notin up /\ (D[c] \cap rel) \subseteq up
\* c may be taken down when nothing that depends on it waits for that
DownOk(D, waiting, c) == \A x \in waiting \ {c} : c \notin Needs(D, x)
Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
LastIn(q, S) == LET k == CHOOSE i \in 1..Len(q) : q[i] \in S /\ \A j \in i + 1..Len(q) : q[j] \notin S IN q[k]
=============================================================================
