----------------------------- MODULE BufferSeq -----------------------------
(* Trace specification: sequential histories of buffer operations recorded  *)
(* from the real buffer (harness/drv_buffer.c), with complete statistics and *)
(* the number of live allocations after every operation, replayed on         *)
(* Buffer.tla. The only nondeterminism is the storage chosen for a frame,    *)
(* which is taken from the trace and checked for legality.                   *)
EXTENDS Buffer, TraceBase
VARIABLES tr, l, b, mem
vars == <<tr, l, b, mem>>
\* mem: live0 allocations of the static part, per: allocations per dynamic
\* pool (0: not known yet), start: time the collector was started (-1: not
\* running), tk: collector ticks performed
M == Meta(tr)
C == [stat |-> MaxOf(2, M.cstat), dyn |-> MaxOf(1, M.cdyn),
      max |-> IF M.hist = 1 THEN M.cinc ELSE 0, gcl |-> MaxOf(1, M.gcl)]
GcOn == M.gc = 1 /\ M.hist = 1

Init == /\ tr \in 1..NTraces /\ l = 1
        /\ b = InitBuf(C)
        /\ mem = [live0 |-> 0, per |-> 0, start |-> -1, tk |-> 0]

Sane(x) == Conserved(C, x) /\ StorageUnique(x) /\ Bounded(C, x)

RECURSIVE Ticks(_, _)
Ticks(x, k) == IF k = 0 THEN x ELSE Ticks(AutoGcRes(C, x), k - 1)
Due(n) == IF mem.start = -1 THEN 0 ELSE (n - mem.start) \div (M.gci * 1000)

\* number of live allocations fits the number of pools
LiveOk(e, nb) == \/ Len(nb.pools) = 0 /\ e.live = mem.live0
                 \/ mem.per > 0 /\ e.live = mem.live0 + mem.per * Len(nb.pools)
                 \/ mem.per = 0 /\ Len(nb.pools) = 1 /\ e.live > mem.live0

Op(e, x) ==
  CASE e.e = "new" -> IF NewOk(C, x, e.p, e.s, e.mf = 1)
                      THEN {NewRes(C, x, e.p, e.s, e.mf = 1)} ELSE {}
    [] e.e = "commit" -> IF x.nw # <<>> THEN {CommitRes(x, e.v)} ELSE {}
    [] e.e = "abort" -> IF x.nw # <<>> THEN {AbortRes(x)} ELSE {}
    [] e.e \in {"get", "getto"} ->
         IF x.queue # <<>>
         THEN IF e.ok = 1 /\ Head(x.queue) = [p |-> e.p, s |-> e.s, v |-> e.v] /\ e.el = 0
              THEN {GetRes(x)} ELSE {}
         ELSE IF e.ok = 0 /\ e.e = "getto" /\ e.el >= e.to /\ e.el <= e.to + 10
              THEN {x} ELSE {}
    [] e.e = "release" -> {ReleaseRes(x)}
    [] e.e = "put"     -> {PutRes(x)}
    [] e.e = "flush"   -> {FlushRes(x)}
    [] e.e = "flushu"  -> {IF M.hist = 1 THEN x ELSE FlushRes(x)}
    [] e.e = "gc"      -> {GcRes(x)}
    [] e.e = "wait"    -> {x}
    [] e.e = "reset"   -> {ResetRes(x)}
    [] OTHER -> {}

Next ==
  /\ l <= NEv(tr)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET e == Evs(tr)[l] IN
     \/ /\ e.e = "init" /\ e.ok = 1 /\ e.live > 0
        /\ mem' = [mem EXCEPT !.live0 = e.live] /\ b' = b
     \/ /\ e.e = "start" /\ e.ok = 1 /\ e.st = StatVec(b)
        /\ mem' = [mem EXCEPT !.start = IF GcOn THEN e.n ELSE -1] /\ b' = b
     \/ /\ e.e \notin {"init", "start", "stop", "destruct", "reinit"}
        /\ LET d == Due(e.n) IN
           /\ \E nb \in Op(e, Ticks(b, d - mem.tk)) :
               /\ Sane(nb)
               /\ b' = nb
               /\ e.st = StatVec(nb)
               /\ LiveOk(e, nb)
               /\ mem' = [mem EXCEPT !.tk = d,
                            !.per = IF @ = 0 /\ Len(nb.pools) = 1
                                    THEN e.live - mem.live0 ELSE @]
     \/ \* after stopping, every lock is free
        /\ e.e = "stop" /\ e.locks = 0 /\ e.st = StatVec(b) /\ UNCHANGED <<b, mem>>
     \/ \* destruction frees everything
        /\ e.e = "destruct" /\ e.live = 0 /\ b' = b /\ mem' = mem
     \/ /\ e.e = "reinit" /\ e.ok = 1 /\ e.live = mem.live0
        /\ b' = [InitBuf(C) EXCEPT !.st = b.st]
        /\ e.st = StatVec(b')
        /\ mem' = [mem EXCEPT !.start = -1]
  /\ Accept(tr, l')
Spec == Init /\ [][Next]_vars
=============================================================================
