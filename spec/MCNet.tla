------------------------------- MODULE MCNet -------------------------------
(* The algorithm of core/network.c at the granularity of its critical        *)
(* sections, with a sender, a receiver, the connector and a hostile network, *)
(* monitored by the promises of Net.tla.                                     *)
EXTENDS Net, TLC
CONSTANTS MaxConn, MaxFault, Forced
VARIABLES m,            \* promises (monitor)
          bad,          \* a step the promises do not allow
          rs, ss,       \* recvsock, sendsock (0: invalid)
          cs, ts,       \* connState, transState
          cpc, spc, rpc,\* program counters
          sfd, rfd,     \* descriptor in use by a system call
          n,            \* connections so far
          dead,         \* connections the peer has given up
          f             \* remaining faults
vars == <<m, bad, rs, ss, cs, ts, cpc, spc, rpc, sfd, rfd, n, dead, f>>
alg == <<rs, ss, cs, ts>>

Init == /\ m = InitNet /\ bad = FALSE /\ rs = 0 /\ ss = 0
        /\ cs = "dis" /\ ts = "none" /\ cpc = "try" /\ spc = "wait" /\ rpc = "wait"
        /\ sfd = 0 /\ rfd = 0 /\ n = 0 /\ dead = {} /\ f = MaxFault

\* the connector holds the mutex while it tries, so nothing else that needs
\* the mutex happens during a round
Free == cpc = "up"

Try == /\ cpc = "try"
       /\ \/ /\ n < MaxConn
             /\ n' = n + 1
             /\ bad' = (bad \/ ~CanEstablish(m, n + 1))
             /\ m' = Established(m, n + 1)
             /\ rs' = IF ts \in {"none", "send"} THEN n + 1 ELSE rs
             /\ ss' = IF ts \in {"none", "recv"} THEN n + 1 ELSE ss
             /\ cs' = "con" /\ cpc' = "up" /\ f' = f
          \/ /\ f > 0 /\ f' = f - 1 /\ cpc' = "sleep" /\ UNCHANGED <<n, m, bad, rs, ss, cs>>
       /\ UNCHANGED <<ts, spc, rpc, sfd, rfd, dead>>
Sleep == /\ cpc = "sleep" /\ cpc' = "try"
         /\ UNCHANGED <<m, bad, rs, ss, cs, ts, spc, rpc, sfd, rfd, n, dead, f>>
Wake == /\ cpc = "up" /\ cs = "dis" /\ cpc' = "try"
        /\ UNCHANGED <<m, bad, rs, ss, cs, ts, spc, rpc, sfd, rfd, n, dead, f>>

Peer == /\ f > 0 /\ f' = f - 1
        /\ \E c \in m.open \ dead : dead' = dead \cup {c}
        /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, spc, rpc, sfd, rfd, n>>

\* emitDisconnect by direction d
Emit(d) ==
  LET mine == IF d = "s" THEN ss ELSE rs
      oth  == IF d = "s" THEN rs ELSE ss
      by   == IF d = "s" THEN "recv" ELSE "send"
      SetMine(x) == /\ ss' = IF d = "s" THEN x ELSE ss
                    /\ rs' = IF d = "r" THEN x ELSE rs
  IN
  IF cs = "con" THEN
    IF ts = "none" THEN
         /\ bad' = (bad \/ ~CanShut(m, d, mine)) /\ m' = Shut(m, d, mine)
         /\ SetMine(0) /\ ts' = by /\ cs' = "dis"
    ELSE IF ts = by THEN
         /\ LET m1 == Shut(m, d, mine) IN
            /\ bad' = (bad \/ ~CanShut(m, d, mine) \/ ~CanClose(m1, d, mine))
            /\ m' = Close(m1, d, mine)
         /\ SetMine(0) /\ cs' = "dis" /\ ts' = ts
    ELSE /\ bad' = (bad \/ ~CanClose(m, d, mine)) /\ m' = Close(m, d, mine)
         /\ SetMine(oth) /\ ts' = "none" /\ cs' = cs
  ELSE IF ts \notin {"none", by} THEN
         /\ bad' = (bad \/ ~CanClose(m, d, mine)) /\ m' = Close(m, d, mine)
         /\ SetMine(0) /\ ts' = "none" /\ cs' = cs
  ELSE UNCHANGED <<m, bad, rs, ss, cs, ts>>

SWait == /\ spc = "wait" /\ Free /\ cs = "con" /\ spc' = "go"
         /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, rpc, sfd, rfd, n, dead, f>>
\* the descriptor is read without the lock
SRead == /\ spc = "go" /\ sfd' = ss /\ spc' = "send"
         /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, rpc, rfd, n, dead, f>>
SSend == /\ spc = "send"
         /\ bad' = (bad \/ ~MayUse(m, "s", sfd))
         /\ \/ /\ sfd \in dead \cup m.shut /\ spc' = "fail"
            \/ /\ sfd \notin m.shut /\ spc' = "go"
         /\ UNCHANGED <<m, rs, ss, cs, ts, cpc, rpc, sfd, rfd, n, dead, f>>
SFail == /\ spc = "fail" /\ Free /\ Emit("s") /\ spc' = "wait" /\ sfd' = 0
         /\ UNCHANGED <<cpc, rpc, rfd, n, dead, f>>
SForce == /\ Forced /\ f > 0 /\ f' = f - 1 /\ spc = "go" /\ Free /\ Emit("s") /\ spc' = "wait"
          /\ UNCHANGED <<cpc, rpc, sfd, rfd, n, dead>>
\* checkConnected: two critical sections
SCheck == /\ Forced /\ spc = "go" /\ Free
          /\ spc' = IF cs # "con" \/ ts = "send" THEN "fail" ELSE "go"
          /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, rpc, sfd, rfd, n, dead, f>>

RWait == /\ rpc = "wait" /\ Free /\ cs = "con" /\ rpc' = "go"
         /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, spc, sfd, rfd, n, dead, f>>
RRead == /\ rpc = "go" /\ rfd' = rs /\ rpc' = "recv"
         /\ UNCHANGED <<m, bad, rs, ss, cs, ts, cpc, spc, sfd, n, dead, f>>
RRecv == /\ rpc = "recv"
         /\ bad' = (bad \/ ~MayUse(m, "r", rfd))
         /\ \/ /\ rfd \in dead \cup m.shut /\ rpc' = "fail"
            \/ /\ rfd \notin dead \cup m.shut /\ f > 0 /\ rpc' = "go"
         /\ UNCHANGED <<m, rs, ss, cs, ts, cpc, spc, sfd, rfd, n, dead, f>>
RFail == /\ rpc = "fail" /\ Free /\ Emit("r") /\ rpc' = "wait" /\ rfd' = 0
         /\ UNCHANGED <<cpc, spc, sfd, n, dead, f>>

Next == Try \/ Sleep \/ Wake \/ Peer \/ SWait \/ SRead \/ SSend \/ SFail \/ SForce
        \/ SCheck \/ RWait \/ RRead \/ RRecv \/ RFail
Fair == /\ WF_vars(Try) /\ WF_vars(Sleep) /\ WF_vars(Wake)
        /\ WF_vars(SWait) /\ WF_vars(SRead) /\ SF_vars(SFail)
        /\ SF_vars(SSend /\ spc' = "fail") /\ WF_vars(SSend)
        /\ WF_vars(RWait) /\ WF_vars(RRead) /\ SF_vars(RFail)
        /\ SF_vars(RRecv /\ rpc' = "fail")
Spec == Init /\ [][Next]_vars /\ Fair

NoViolation == ~bad
Contract == NetInv(m)
\* the abstract bindings are the algorithm's sockets
Mapping == /\ m.bind.s = ss /\ m.bind.r = rs
           /\ (cs = "con") = Up(m)
\* once no more faults happen, both directions use the same live connection
Quiet == f = 0 /\ n < MaxConn
Converged == Up(m) /\ m.bind.s = m.cur /\ m.bind.r = m.cur /\ m.cur \notin dead
Convergence == <>(Converged \/ n = MaxConn)
Stable == <>[](Converged \/ n = MaxConn)
=============================================================================
