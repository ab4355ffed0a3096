-------------------------------- MODULE Net --------------------------------
(* What the two directions of the network layer and its connector promise.   *)
(* Every direction ("s" sending, "r" receiving) is bound to one connection   *)
(* until it notices that this connection is lost. The first one to notice    *)
(* shuts the connection down, the last one closes it. A direction that is    *)
(* not bound is bound to the next connection that is established; one that   *)
(* leaves a lost connection after a new one is up is bound to that one.      *)
(* The connector starts a round of connection attempts at once at start and  *)
(* after a loss, and RoundPause after an unsuccessful round.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
RoundPause == 10000
Other(d) == IF d = "s" THEN "r" ELSE "s"

\* a connection: st "new" (not connected yet), "up", "failed", "closed";
\* lost: has been shut down
Up(x) == x.cur # 0 /\ ~x.lost
InitNet == [cur |-> 0, lost |-> FALSE, bind |-> [s |-> 0, r |-> 0],
            open |-> {}, shut |-> {}]
\* open: connections which have been connected and are not closed
\* shut: those of them which have been shut down

Established(x, c) ==
  [x EXCEPT !.cur = c, !.lost = FALSE, !.open = @ \cup {c},
            !.bind = [d \in {"s", "r"} |-> IF @[d] = 0 THEN c ELSE @[d]]]
CanEstablish(x, c) == (x.cur = 0 \/ x.lost) /\ c \notin x.open

\* direction d notices the loss of the connection c it is bound to
CanShut(x, d, c) == c # 0 /\ x.bind[d] = c /\ c \in x.open /\ c \notin x.shut
Shut(x, d, c) ==
  [x EXCEPT !.shut = @ \cup {c},
            !.lost = IF c = x.cur THEN TRUE ELSE @,
            !.bind[d] = IF x.bind[Other(d)] = c THEN 0 ELSE @]
CanClose(x, d, c) == /\ c # 0 /\ x.bind[d] = c /\ c \in x.shut
                     /\ x.bind[Other(d)] # c
Close(x, d, c) ==
  [x EXCEPT !.open = @ \ {c}, !.shut = @ \ {c},
            !.bind[d] = IF x.cur # c /\ Up(x) THEN x.cur ELSE 0]

\* a transfer in direction d may only use this connection
MayUse(x, d, c) == c # 0 /\ c \in x.open /\ x.bind[d] = c

NetInv(x) ==
  /\ x.shut \subseteq x.open
  /\ \A d \in {"s", "r"} : x.bind[d] # 0 => x.bind[d] \in x.open
  /\ Up(x) => x.cur \in x.open \ x.shut
  /\ Up(x) => \E d \in {"s", "r"} : x.bind[d] = x.cur
  /\ \* nothing is left open that nobody is bound to
     \A c \in x.open : \E d \in {"s", "r"} : x.bind[d] = c
  /\ Cardinality(x.open) <= 2
=============================================================================
