------------------------------- MODULE MCIn ---------------------------------
(* The directly attached receiver and its settings: the loop opens the device,   *)
(* sets it up, reads it until it is lost and closes it; meanwhile another thread *)
(* changes the frame filter and tells the receiver; a third part of the program  *)
(* opens and closes descriptors of its own (the lowest free number is used       *)
(* again, as everywhere). CfgLock: the settings are read and sent as one step;   *)
(* IoLock: the descriptor is not closed while it is written to. Without them     *)
(* TLC shows the histories in which the receiver keeps the old setting or the    *)
(* options are written to a stranger.                                            *)
EXTENDS Naturals, FiniteSets
CONSTANTS CfgLock, IoLock, Fds
VARIABLES set,      \* the setting
          dev,      \* what the receiver was told since it was opened: "none" or the setting
          own,      \* descriptor -> "free", "in" or "oth"
          fd,       \* descriptor of the input, 0: none
          pc, v,    \* the loop
          sp, sv, sf, \* the thread which changes the setting: what it read
          cl, io,   \* who holds the locks
          stray     \* something was written to a descriptor of others
vars == <<set, dev, own, fd, pc, v, sp, sv, sf, cl, io, stray>>
Free == {d \in Fds : own[d] = "free"}
Low == CHOOSE d \in Free : \A x \in Free : d <= x
Init == /\ set \in BOOLEAN /\ dev = "none" /\ own = [d \in Fds |-> "free"] /\ fd = 0 /\ pc = "connect" /\ v = FALSE
        /\ sp = "idle" /\ sv = FALSE /\ sf = 0 /\ cl = "" /\ io = "" /\ stray = FALSE

Take(l, on) == ~on \/ l = ""
Hold(who, on) == IF on THEN who ELSE ""

\* ---- the loop
Open == /\ pc = "connect" /\ Free # {} /\ own' = [own EXCEPT ![Low] = "in"] /\ fd' = Low /\ dev' = "none" /\ pc' = "config"
        /\ UNCHANGED <<set, v, sp, sv, sf, cl, io, stray>>
ReadCfg == /\ pc = "config" /\ Take(cl, CfgLock) /\ cl' = Hold("m", CfgLock) /\ v' = set /\ pc' = "tell"
           /\ UNCHANGED <<set, dev, own, fd, sp, sv, sf, io, stray>>
\* the write may fail: the device is closed
Tell == /\ pc = "tell" /\ Take(io, IoLock)
        /\ \/ dev' = (IF v THEN "on" ELSE "off") /\ pc' = "run"
           \/ dev' = dev /\ pc' = "close"
        /\ cl' = "" /\ UNCHANGED <<set, own, fd, v, sp, sv, sf, io, stray>>
Lost == pc = "run" /\ pc' = "close" /\ UNCHANGED <<set, dev, own, fd, v, sp, sv, sf, cl, io, stray>>
Close == /\ pc = "close" /\ Take(io, IoLock) /\ io' = Hold("m", IoLock) /\ own' = [own EXCEPT ![fd] = "free"] /\ dev' = "none"
         /\ pc' = "closed" /\ UNCHANGED <<set, fd, v, sp, sv, sf, cl, stray>>
Closed == /\ pc = "closed" /\ fd' = 0 /\ io' = "" /\ pc' = "connect" /\ UNCHANGED <<set, dev, own, v, sp, sv, sf, cl, stray>>
Main == Open \/ ReadCfg \/ Tell \/ Lost \/ Close \/ Closed

\* ---- the setting is changed, the receiver is told
Change == sp = "idle" /\ set' \in BOOLEAN /\ sp' = "read" /\ UNCHANGED <<dev, own, fd, pc, v, sv, sf, cl, io, stray>>
SRead == /\ sp = "read" /\ Take(cl, CfgLock) /\ cl' = Hold("s", CfgLock) /\ sv' = set /\ sp' = "fd"
         /\ UNCHANGED <<set, dev, own, fd, pc, v, sf, io, stray>>
SFd == /\ sp = "fd" /\ Take(io, IoLock) /\ io' = Hold("s", IoLock) /\ sf' = fd /\ sp' = "write"
       /\ UNCHANGED <<set, dev, own, fd, pc, v, sv, cl, stray>>
SWrite == /\ sp = "write"
          /\ dev' = (IF sf # 0 /\ own[sf] = "in" THEN IF sv THEN "on" ELSE "off" ELSE dev)
          /\ stray' = (stray \/ (sf # 0 /\ own[sf] = "oth"))
          /\ sp' = "idle" /\ cl' = (IF CfgLock THEN "" ELSE cl) /\ io' = (IF IoLock THEN "" ELSE io)
          /\ UNCHANGED <<set, own, fd, pc, v, sv, sf>>
Settings == Change \/ SRead \/ SFd \/ SWrite

\* ---- others
OthOpen == Free # {} /\ own' = [own EXCEPT ![Low] = "oth"] /\ UNCHANGED <<set, dev, fd, pc, v, sp, sv, sf, cl, io, stray>>
OthClose == \E d \in Fds : own[d] = "oth" /\ own' = [own EXCEPT ![d] = "free"] /\ UNCHANGED <<set, dev, fd, pc, v, sp, sv, sf, cl, io, stray>>

Next == Main \/ Settings \/ OthOpen \/ OthClose
Spec == Init /\ [][Next]_vars /\ SF_vars(ReadCfg) /\ SF_vars(Tell) /\ SF_vars(Open) /\ SF_vars(Close) /\ WF_vars(Closed)
             /\ SF_vars(SRead) /\ SF_vars(SFd) /\ WF_vars(SWrite)

One == Cardinality({d \in Fds : own[d] = "in"}) <= 1 /\ (fd = 0 => \A d \in Fds : own[d] # "in")
NoStray == ~stray
\* when nobody is changing the setting, a receiver which is read was told the current one
Told == pc = "run" /\ sp = "idle" => dev = (IF set THEN "on" ELSE "off")
\* a change is always completed, a lost device is always closed
Completes == sp # "idle" ~> sp = "idle"
Reconnects == pc = "close" ~> pc = "connect"
=============================================================================
