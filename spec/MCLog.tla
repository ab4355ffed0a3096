-------------------------------- MODULE MCLog --------------------------------
(* Threads write lines of several pieces to one output under a lock, every piece    *)
(* being a cancellation point; a message of the highest level ends the process when *)
(* everything is written. Variants (constants) leave out the lock, the protection   *)
(* from cancellation or the flush: TLC finds the broken lines (MCLogN*.cfg).        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Msgs, Pieces, Emergs, Locked, Protected, Flushed
VARIABLES pc, left, owner, out, sync, can, done, order
\* pc: 0 not writing, k: writes piece k next; out: pieces printed <<thread, message, piece>>; sync: what reached the kernel
\* left: messages left; can: cancelled; done: "no", "abort"; order: messages in the order of taking effect
vars == <<pc, left, owner, out, sync, can, done, order>>
None == "none"
Init == /\ pc = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Msgs] /\ owner = None /\ out = <<>> /\ sync = 0
        /\ can = {} /\ done = "no" /\ order = <<>>
Alive(t) == done = "no" /\ (t \notin can \/ (Protected /\ pc[t] # 0))
Begin(t) == /\ Alive(t) /\ pc[t] = 0 /\ left[t] > 0 /\ (Locked => owner = None)
            /\ owner' = (IF Locked THEN t ELSE owner) /\ pc' = [pc EXCEPT ![t] = 1] /\ order' = Append(order, <<t, left[t]>>)
            /\ UNCHANGED <<left, out, sync, can, done>>
Write(t) == /\ Alive(t) /\ pc[t] \in 1..Pieces
            /\ out' = Append(out, <<t, left[t], pc[t]>>) /\ pc' = [pc EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<left, owner, sync, can, done, order>>
\* a message whose thread is an element of Emergs ends the process with its last message
Last(t) == t \in Emergs /\ left[t] = 1
End(t) == /\ Alive(t) /\ pc[t] = Pieces + 1
          /\ owner' = (IF owner = t THEN None ELSE owner)
          /\ IF Last(t) THEN /\ done' = "abort" /\ sync' = (IF Flushed THEN Len(out) ELSE sync) /\ pc' = pc /\ left' = left
             ELSE done' = done /\ sync' = sync /\ pc' = [pc EXCEPT ![t] = 0] /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<out, can, order>>
\* the buffer of the stream may be written out at any time
Drain == done = "no" /\ sync < Len(out) /\ sync' = Len(out) /\ UNCHANGED <<pc, left, owner, out, can, done, order>>
Cancel(t) == /\ done = "no" /\ t \notin can /\ can' = can \cup {t}
             /\ UNCHANGED <<pc, left, owner, out, sync, done, order>>
Next == Drain \/ \E t \in Threads : Begin(t) \/ Write(t) \/ End(t) \/ Cancel(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Write(t) \/ End(t))
\* the output is the messages in their order, each as a whole; at most the last one is being written
RECURSIVE Expand(_)
Expand(q) == IF q = <<>> THEN <<>> ELSE [k \in 1..Pieces |-> <<Head(q)[1], Head(q)[2], k>>] \o Expand(Tail(q))
Whole == LET x == Expand(order) IN Len(out) <= Len(x) /\ out = SubSeq(x, 1, Len(out)) /\ Len(x) - Len(out) <= Pieces
\* nobody waits for ever: the lock of a cancelled thread is given back
LockFree == \A t \in Threads : owner = t => Alive(t) \/ done # "no"
\* what has been said before the process ended has been written
Flush == done = "abort" => \E n \in 0..Len(out) : sync = n /\ \E i \in 1..n : out[i][3] = Pieces /\ out[i][1] \in Emergs /\ out[i][2] = 1
\* every message which was begun is finished if the process goes on
Finishes == \A t \in Threads : (pc[t] # 0) ~> (pc[t] = 0 \/ done # "no")
=============================================================================
