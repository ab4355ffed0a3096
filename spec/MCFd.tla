-------------------------------- MODULE MCFd ---------------------------------
EXTENDS Fd
CONSTANTS N, LATE \* descriptors; TRUE: the mark is set in a second step (breaks Clean)
VARIABLES tab, pend, kid, ctty
vars == <<tab, pend, kid, ctty>>
None == [st |-> "none", tab |-> {}, in |-> "orig", bg |-> FALSE]
Init == tab = {} /\ pend = {} /\ kid = None /\ ctty = FALSE
Open(fd) == /\ fd \notin Fds(tab)
            /\ IF LATE THEN tab' = Opened(tab, fd, FALSE) /\ pend' = pend \cup {fd}
               ELSE tab' = Opened(tab, fd, TRUE) /\ pend' = pend
            /\ UNCHANGED <<kid, ctty>>
Mark(fd) == fd \in pend /\ pend' = pend \ {fd} /\ tab' = Opened(Closed(tab, fd), fd, TRUE) /\ UNCHANGED <<kid, ctty>>
Terminal(fd) == \E nt \in BOOLEAN : MayOpenTerminal(nt) /\ ctty' = (ctty \/ ~nt) /\ fd \notin Fds(tab) /\ tab' = Opened(tab, fd, TRUE) /\ UNCHANGED <<kid, pend>>
Close(fd) == fd \in Fds(tab) /\ fd \notin pend /\ tab' = Closed(tab, fd) /\ UNCHANGED <<pend, kid, ctty>>
Fork == kid.st \in {"none", "runs"} /\ \E bg \in BOOLEAN : kid' = [st |-> "forked", tab |-> tab, in |-> "orig", bg |-> bg] /\ UNCHANGED <<tab, pend, ctty>>
Nowhere == kid.st = "forked" /\ kid.bg /\ kid.in = "orig" /\ kid' = [kid EXCEPT !.in = "null"] /\ UNCHANGED <<tab, pend, ctty>>
\* the forked process opens and closes for itself
Private(fd) == /\ kid.st = "forked"
               /\ kid' = IF fd \in Fds(kid.tab) THEN [kid EXCEPT !.tab = Closed(@, fd)] ELSE [kid EXCEPT !.tab = Opened(@, fd, FALSE)]
               /\ UNCHANGED <<tab, pend, ctty>>
Exec == /\ kid.st = "forked" /\ (\A d \in kid.tab : d.cx \/ d \in tab) /\ (kid.bg => kid.in = "null")
        /\ kid' = [kid EXCEPT !.st = "runs", !.tab = {d \in @ : ~d.cx}] /\ UNCHANGED <<tab, pend, ctty>>
Next == (\E fd \in 3..(2 + N) : Open(fd) \/ Mark(fd) \/ Terminal(fd) \/ Close(fd) \/ (fd = 3 /\ Private(fd))) \/ Fork \/ Nowhere \/ Exec
Spec == Init /\ [][Next]_vars
Clean == kid.st = "runs" => kid.tab = {} /\ (kid.bg => kid.in = "null")
NoCtty == ~ctty
=============================================================================
