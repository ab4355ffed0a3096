--------------------------------- MODULE Fd ----------------------------------
(* Descriptors and programs (X01). One thread of the sensor starts programs,     *)
(* others open and close descriptors meanwhile; nothing orders them. A program   *)
(* gets a copy of the table of the process it is started from, without the       *)
(* descriptors marked close-on-exec. A descriptor must therefore carry the mark   *)
(* from the moment it exists.                                                    *)
EXTENDS Naturals, FiniteSets
\* a table: a set of descriptors [fd, cx]
Fds(t) == {d.fd : d \in t}
\* a forked process is alone and may also clean up before it starts the program
MayOpen(t, fd, cx, forked) == fd \notin Fds(t) /\ (forked \/ cx)
Opened(t, fd, cx) == t \cup {[fd |-> fd, cx |-> cx]}
Closed(t, fd) == {d \in t : d.fd # fd}
Kept(t) == {d.fd : d \in {x \in t : ~x.cx}}
\* what a started program finds: nothing of the sensor; background programs read from nowhere
MayStart(t, inherited, stdin, background) == inherited = Kept(t) /\ Kept(t) = {} /\ (background => stdin = "null")
\* terminals never become the controlling terminal, or a hang-up would end the sensor
MayOpenTerminal(noctty) == noctty
=============================================================================
