-------------------------------- MODULE MCTb --------------------------------
(* The receive loop of core/tb.c: a buffer that is filled by reads of any     *)
(* size and emptied packet by packet, against the meaning of the bytes        *)
(* received on the connection (Feed!TbParse on all of them).                   *)
EXTENDS Feed, TLC, FiniteSets
CONSTANTS MaxTok, MaxRead, Losses
VARIABLES stream, pos, buf, all, acts, bad, lost
vars == <<stream, pos, buf, all, acts, bad, lost>>
Toks == { <<0, 0, 0, 4>>, <<0, 5, 0, 5, 9>>, <<0, 5, 0, 4>>, <<0, 0, 0, 3>>, <<0, 0, 0, 129>>, <<0, 6, 0, 4>>, <<7>> }
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Streams == {Flat(q) : q \in UNION {[1..k -> Toks] : k \in 1..MaxTok}}
Init == /\ stream \in Streams /\ pos = 0 /\ buf = <<>> /\ all = <<>> /\ acts = <<>> /\ bad = FALSE /\ lost = 0
\* the loop, one packet at a time
RECURSIVE Loop(_, _, _)
Loop(b, a, x) ==
  IF Len(b) < 4 THEN <<b, a, x>>
  ELSE LET n == b[3] * 256 + b[4] IN
       IF n > 128 \/ n < 4 THEN <<<<>>, a, TRUE>>
       ELSE IF Len(b) < n THEN <<b, a, x>>
       ELSE Loop(SubSeq(b, n + 1, Len(b)), Append(a, [ty |-> b[1] * 256 + b[2], pl |-> SubSeq(b, 5, n)]), x)
Recv(n) == /\ pos + n <= Len(stream)
           /\ LET c == SubSeq(stream, pos + 1, pos + n) r == Loop(buf \o c, acts, bad)
              IN buf' = r[1] /\ acts' = r[2] /\ bad' = r[3] /\ all' = all \o c
           /\ pos' = pos + n /\ UNCHANGED <<stream, lost>>
Lose == /\ pos < Len(stream) /\ pos > 0 /\ lost < Losses
        /\ buf' = <<>> /\ all' = <<>> /\ acts' = <<>> /\ bad' = FALSE /\ lost' = lost + 1
        /\ UNCHANGED <<stream, pos>>
Next == (\E n \in 1..MaxRead : Recv(n)) \/ Lose
Spec == Init /\ [][Next]_vars
\* what is acted upon depends on the bytes of this connection only
Meaning == ~bad => LET r == TbParse(all, <<>>) IN r.todo = acts /\ r.rest = buf
\* and the buffer never needs more room than the largest packet
Room == Len(buf) < 128
\* a prefix of the meaning survives an impossible header
Prefix == LET r == TbParse(all, <<>>) IN bad => \A i \in 1..Len(r.todo) : i <= Len(acts) => acts[i] = r.todo[i]
Inv == Meaning /\ Room /\ Prefix
=============================================================================
