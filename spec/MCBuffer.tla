------------------------------ MODULE MCBuffer ------------------------------
(* Exhaustive model of Buffer.tla within small constants.                   *)
EXTENDS Buffer, TLC
CONSTANTS StatN, DynN, MaxPools, GcLevel, MaxV, MaxPoolId, AllowMallocFail, WithTick
C == [stat |-> StatN, dyn |-> DynN, max |-> MaxPools, gcl |-> GcLevel]
VARIABLES b, v, got, last
vars == <<b, v, got, last>>

Init == b = InitBuf(C) /\ v = 0 /\ got = 0 /\ last = "init"
\* smallest free storage number of pool p (identity is irrelevant here)
FreeSlot(p) == LET S == {i \in 1..SizeOf(C, p) :
                            ~\E x \in SeqSet(InUse(b)) : x.s = <<p, i>>}
               IN <<p, CHOOSE i \in S : \A j \in S : i <= j>>
NextPool == CHOOSE i \in 1..MaxPoolId : /\ i \notin DOMAIN b.avail
                                         /\ \A j \in 1..(i-1) : j \in DOMAIN b.avail
NewWith(mf) == b.nw = <<>> /\
  LET k == NewKind(C, b, mf) IN
  \E p \in (CASE k = "free" -> {q \in DOMAIN b.avail : b.avail[q] > 0}
              [] k = "uncollect" -> {q \in DOMAIN b.coll : b.coll[q] > 0}
              [] k = "grow" -> {NextPool}
              [] k = "discard" -> {Head(b.queue).p}) :
    LET s == IF k = "discard" THEN Head(b.queue).s ELSE FreeSlot(p) IN
    /\ NewOk(C, b, p, s, mf)
    /\ b' = NewRes(C, b, p, s, mf)
    /\ last' = (IF mf /\ k = "discard" THEN "newmf" ELSE "new")
    /\ UNCHANGED <<v, got>>
New == NewWith(FALSE)
\* the same with a failing allocation, where one is attempted
NewMf == AllowMallocFail /\ b.nw = <<>> /\ NewKind(C, b, FALSE) = "grow" /\ NewWith(TRUE)
Commit  == b.nw # <<>> /\ v < MaxV /\ v' = v + 1 /\ b' = CommitRes(b, v + 1)
           /\ last' = "commit" /\ UNCHANGED got
Abort   == b.nw # <<>> /\ b' = AbortRes(b) /\ last' = "abort" /\ UNCHANGED <<v, got>>
Get     == b.cur = <<>> /\ b.queue # <<>> /\ b' = GetRes(b) /\ last' = "get" /\ UNCHANGED <<v, got>>
GetTo   == b.cur = <<>> /\ b.queue = <<>> /\ b' = b /\ last' = "getto" /\ UNCHANGED <<v, got>>
Release == b.cur # <<>> /\ b' = ReleaseRes(b) /\ got' = Head(b.cur).v /\ last' = "release" /\ UNCHANGED v
Put     == b.cur # <<>> /\ b' = PutRes(b) /\ last' = "put" /\ UNCHANGED <<v, got>>
Flush   == b' = FlushRes(b) /\ last' = "flush" /\ UNCHANGED <<v, got>>
Gc      == b' = GcRes(b) /\ last' = "gc" /\ UNCHANGED <<v, got>>
Tick    == WithTick /\ b' = AutoGcRes(C, b) /\ last' = "tick" /\ UNCHANGED <<v, got>>
Next == New \/ NewMf \/ Commit \/ Abort \/ Get \/ GetTo \/ Release \/ Put \/ Flush \/ Gc \/ Tick
Spec == Init /\ [][Next]_vars

\* the statistics never influence behaviour: hide them and the labels
View == <<[b EXCEPT !.st = NoStats], v, got>>

Inv == /\ Conserved(C, b) /\ StorageUnique(b) /\ Bounded(C, b) /\ FifoOrder(b)
       /\ \A x \in SeqSet(b.cur \o b.queue) : x.v > got
\* a new frame is always available, without waiting
AlwaysNew == b.nw = <<>> => ENABLED New
\* only the oldest frame is lost, and only when no frame is free
OnlyOldest == [][ (\E x \in SeqSet(b.queue) : ~\E y \in SeqSet(InUse(b')) : y.v = x.v /\ x.v # 0) =>
                  \/ last' = "flush"
                  \/ /\ last' \in {"new", "newmf"} /\ FreeCount(b) = 0
                     /\ \A p \in DOMAIN b.coll : b.coll[p] = 0
                     /\ (last' = "newmf" \/ Len(b.pools) = C.max)
                     /\ b'.queue = Tail(b.queue) ]_vars
\* the collector touches no frame in use and leaves no unused pool
GcTransparent == [][ last' = "gc" => /\ b'.queue = b.queue /\ b'.cur = b.cur /\ b'.nw = b.nw
                                     /\ \A p \in SeqSet(b'.pools) : UsedOf(b', p) > 0 ]_vars
=============================================================================
