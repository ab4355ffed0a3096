----------------------------- MODULE BufferConc -----------------------------
(* Trace specification: concurrent histories of buffer operations. The      *)
(* trace contains invocations and responses; between the two the operation   *)
(* takes effect atomically (silent step Lin). A history is accepted iff such *)
(* a linearization of Buffer.tla exists which also respects time: a waiting  *)
(* consumer never sleeps on while a frame is queued, and gives up exactly at *)
(* its deadline with the queue empty. Operations of a cancelled thread which *)
(* never return have no effect.                                              *)
EXTENDS Buffer, TraceBase
VARIABLES tr, l, b, pend, now, dying
vars == <<tr, l, b, pend, now, dying>>
M == Meta(tr)
C == [stat |-> MaxOf(2, M.cstat), dyn |-> MaxOf(1, M.cdyn),
      max |-> IF M.hist = 1 THEN M.cinc ELSE 0, gcl |-> MaxOf(1, M.gcl)]
E == Evs(tr)
Pending == DOMAIN pend

Init == tr \in 1..NTraces /\ l = 1 /\ b = InitBuf(C) /\ now = 0 /\ pend = [x \in {} |-> 0] /\ dying = {}

\* index of the response to the invocation at position k, 0 if there is none
RECURSIVE RetIdx(_, _)
RetIdx(k, t) == IF k > NEv(tr) THEN 0
                ELSE IF E[k].t = t /\ E[k].e = "ret" THEN k
                ELSE IF E[k].t = t /\ E[k].e = "inv" THEN 0
                ELSE RetIdx(k + 1, t)

Waiting(t) == pend[t].op \in {"get", "getto"} /\ ~pend[t].done
\* time may pass from now to n: nobody oversleeps
TimeOk(n) == n = now \/ M.tc = 1 \/
   \A t \in Pending \ dying : Waiting(t) =>
      /\ b.queue = <<>>
      /\ pend[t].op = "getto" => n <= pend[t].n + pend[t].a + 10

Sane(x) == Conserved(C, x) /\ StorageUnique(x) /\ Bounded(C, x) /\ FifoOrder(x)
Effect(p, r) ==
  CASE p.op = "new" -> IF r.ok = 1 /\ NewOk(C, b, r.p, r.s, FALSE) THEN {NewRes(C, b, r.p, r.s, FALSE)} ELSE {}
    [] p.op = "commit" -> IF b.nw # <<>> THEN {CommitRes(b, p.a)} ELSE {}
    [] p.op = "abort" -> IF b.nw # <<>> THEN {AbortRes(b)} ELSE {}
    [] p.op \in {"get", "getto"} ->
         IF r.ok = 1
         THEN IF b.queue # <<>> /\ Head(b.queue) = [p |-> r.p, s |-> r.s, v |-> r.v] THEN {GetRes(b)} ELSE {}
         ELSE IF p.op = "getto" /\ b.queue = <<>> /\ l <= NEv(tr) /\ E[l].n >= p.n + p.a THEN {b} ELSE {}
    [] p.op = "release" -> IF b.cur # <<>> /\ Head(b.cur).v = p.a THEN {ReleaseRes(b)} ELSE {}
    [] p.op = "put" -> IF b.cur # <<>> /\ Head(b.cur).v = p.a THEN {PutRes(b)} ELSE {}
    [] p.op = "flush" -> {FlushRes(b)}
    [] p.op = "flushu" -> {IF M.hist = 1 THEN b ELSE FlushRes(b)}
    [] p.op = "gc" -> {GcRes(b)}
    [] p.op = "stat" -> IF r.v = Len(b.queue) THEN {b} ELSE {}
    [] OTHER -> {}

Lin == \E t \in Pending :
   /\ ~pend[t].done /\ pend[t].ret # 0
   /\ b' \in {x \in Effect(pend[t], E[pend[t].ret]) : Sane(x)}
   /\ pend' = [pend EXCEPT ![t].done = TRUE]
   /\ UNCHANGED <<tr, l, now, dying>>

Step ==
  /\ l <= NEv(tr)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET e == E[l] IN
     /\ TimeOk(e.n) /\ now' = e.n
     /\ dying' = IF e.e = "cancel" THEN dying \cup {e.th} ELSE dying
     /\ \/ e.e = "init" /\ e.ok = 1 /\ UNCHANGED <<b, pend>>
        \/ /\ e.e = "inv" /\ e.t \notin Pending
           /\ pend' = Upd(pend, e.t, [op |-> e.op, a |-> e.a, n |-> e.n, done |-> FALSE,
                                      ret |-> RetIdx(l + 1, e.t)])
           /\ b' = b
        \/ /\ e.e = "ret" /\ e.t \in Pending /\ pend[e.t].done /\ pend[e.t].ret = l
           /\ pend' = Del(pend, e.t) /\ b' = b
        \/ e.e = "cancel" /\ UNCHANGED <<b, pend>>
        \/ \* a cancelled thread may die only while waiting for a frame
           /\ e.e = "gone"
           /\ e.th \in dying
           /\ e.th \in Pending => pend[e.th].op \in {"get", "getto"}
           /\ pend' = [t \in Pending \ {e.th} |-> pend[t]] /\ b' = b
        \/ e.e = "end" /\ e.locks = 0 /\ Pending = {} /\ e.st = StatVec(b) /\ UNCHANGED <<b, pend>>
  /\ Accept(tr, l')
Next == Lin \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
