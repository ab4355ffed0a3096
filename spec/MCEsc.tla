-------------------------------- MODULE MCEsc -------------------------------
(* Escaping (Feed.tla) is reversible, and what is sent can be split back into  *)
(* the messages sent, wherever one starts to read.                              *)
EXTENDS Feed, TLC, FiniteSets
CONSTANTS MaxPl, MaxMsg
VARIABLES msgs
A == {26, 65, 54}
Types == {49, 54, 65}
RECURSIVE Unesc(_)
Unesc(w) == IF w = <<>> THEN <<>> ELSE IF Head(w) = Sync THEN <<Sync>> \o Unesc(Tail(Tail(w))) ELSE <<Head(w)>> \o Unesc(Tail(w))
Wire(m) == <<Sync, m.ty>> \o Esc(m.pl)
RECURSIVE All(_)
All(ms) == IF ms = <<>> THEN <<>> ELSE Wire(Head(ms)) \o All(Tail(ms))
\* a receiver: behind a message start everything up to the next synchronization byte that is not doubled
RECURSIVE Take(_, _)
Take(w, i) == IF i > Len(w) THEN i
              ELSE IF w[i] # Sync THEN Take(w, i + 1)
              ELSE IF i < Len(w) /\ w[i + 1] = Sync THEN Take(w, i + 2) ELSE i
RECURSIVE Split(_)
Split(w) == IF w = <<>> THEN <<>>
            ELSE LET e == Take(w, 3) IN <<[ty |-> w[2], pl |-> Unesc(SubSeq(w, 3, e - 1))]>> \o Split(SubSeq(w, e, Len(w)))
Pls == UNION {[1..k -> A] : k \in 0..MaxPl}
Init == msgs = <<>>
Next == Len(msgs) < MaxMsg /\ \E t \in Types, p \in Pls : msgs' = Append(msgs, [ty |-> t, pl |-> p])
Spec == Init /\ [][Next]_msgs
Doubled(b, k) == Cardinality({i \in 1..k : b[i] = Sync})
Inv ==
  LET w == All(msgs) IN
  /\ Split(w) = msgs
  /\ \A i \in 1..Len(msgs) : LET b == msgs[i].pl e == Esc(b) IN
       /\ Unesc(e) = b /\ Len(e) = Len(b) + Doubled(b, Len(b))
       /\ \A k \in 1..Len(b) : e[k + Doubled(b, k)] = b[k] /\ (b[k] = Sync => e[k + Doubled(b, k) - 1] = Sync)
=============================================================================
