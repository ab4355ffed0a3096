------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The frame buffer between the receiver (producer) and the relay          *)
(* (consumer): a free list, a FIFO queue, at most one frame being produced  *)
(* and one being consumed, dynamic pools (history only) and the garbage     *)
(* collector.                                                               *)
(*                                                                          *)
(* Every operation is an operator from a state record to a state record, so *)
(* the same definitions serve the exhaustive model (MCBuffer), the          *)
(* sequential trace specification (BufferSeq) and the concurrent one        *)
(* (BufferConc).                                                            *)
(*                                                                          *)
(* b.pools   sequence of live dynamic pool ids, in creation order           *)
(* b.avail   free frames per pool that are on the free list (0 = static)    *)
(* b.coll    free frames per dynamic pool set aside by the collector        *)
(* b.queue   sequence of [p, s, v]: pool, storage, committed value          *)
(* b.cur     sequence of length <= 1: frame held by the consumer            *)
(* b.nw      sequence of length <= 1: frame held by the producer            *)
(* b.st      statistics                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in (DOMAIN f) \ {k} |-> f[x]]
SeqSet(q)    == {q[i] : i \in 1..Len(q)}
Drop(q, P(_)) == SelectSeq(q, LAMBDA x : ~P(x))
MaxOf(a, b)  == IF a > b THEN a ELSE b
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0
              ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Sum(f) == SumF(f, DOMAIN f)

\* a configuration: c.stat, c.dyn, c.max (0 without history), c.gcl
NoStats == [maxQ |-> 0, dCur |-> 0, dAll |-> 0, dMax |-> 0, dynAll |-> 0,
            dynMax |-> 0, unc |-> 0, fl |-> 0, gc |-> 0]

InitBuf(c) == [pools |-> <<>>, avail |-> [x \in {0} |-> c.stat],
               coll |-> [x \in {} |-> 0], queue |-> <<>>, cur |-> <<>>,
               nw |-> <<>>, st |-> NoStats]

FreeCount(b) == Sum(b.avail)
InUse(b)     == b.queue \o b.cur \o b.nw
UsedOf(b, p) == Len(SelectSeq(InUse(b), LAMBDA x : x.p = p))
SizeOf(c, p) == IF p = 0 THEN c.stat ELSE c.dyn

(*----------------------------- producer ---------------------------------*)
\* which of the four ways of obtaining a frame applies
Uncollectable(b) == {i \in 1..Len(b.pools) : b.coll[b.pools[i]] > 0}
NewKind(c, b, mallocFails) ==
    IF FreeCount(b) > 0 THEN "free"
    ELSE IF Uncollectable(b) # {} THEN "uncollect"
    ELSE IF Len(b.pools) < c.max /\ ~mallocFails THEN "grow"
    ELSE "discard"

\* the frame obtained is storage s of pool p; NewOk says whether that is legal
NewOk(c, b, p, s, mf) ==
    /\ b.nw = <<>>
    /\ LET k == NewKind(c, b, mf) IN
       CASE k = "free"      -> /\ p \in DOMAIN b.avail /\ b.avail[p] > 0
                               /\ ~\E x \in SeqSet(InUse(b)) : x.s = s
         [] k = "uncollect" -> /\ p \in DOMAIN b.coll /\ b.coll[p] > 0
                               /\ ~\E x \in SeqSet(InUse(b)) : x.s = s
         [] k = "grow"      -> /\ p \notin DOMAIN b.avail
                               /\ ~\E x \in SeqSet(InUse(b)) : x.s = s
         [] k = "discard"   -> /\ b.queue # <<>>
                               /\ Head(b.queue).p = p /\ Head(b.queue).s = s

NewRes(c, b, p, s, mf) ==
    LET k == NewKind(c, b, mf)
        f == [p |-> p, s |-> s, v |-> 0]
        b1 == [b EXCEPT !.nw = <<f>>, !.st.dCur = 0]
    IN CASE k = "free" -> [b1 EXCEPT !.avail[p] = @ - 1]
         [] k = "uncollect" ->
              [b1 EXCEPT !.avail[p] = b.coll[p] - 1, !.coll[p] = 0,
                         !.st.unc = @ + 1]
         [] k = "grow" ->
              [b1 EXCEPT !.pools = Append(@, p),
                         !.avail = Upd(@, p, c.dyn - 1),
                         !.coll = Upd(@, p, 0),
                         !.st.dynAll = @ + 1,
                         !.st.dynMax = MaxOf(@, Len(b.pools) + 1)]
         [] k = "discard" ->
              [b EXCEPT !.nw = <<f>>, !.queue = Tail(@),
                        !.st.dCur = @ + 1, !.st.dAll = @ + 1,
                        !.st.dMax = MaxOf(@, b.st.dCur + 1)]

CommitRes(b, v) ==
    [b EXCEPT !.queue = Append(@, [Head(b.nw) EXCEPT !.v = v]), !.nw = <<>>,
              !.st.maxQ = MaxOf(@, Len(b.queue) + 1)]

AbortRes(b) == [b EXCEPT !.avail[Head(b.nw).p] = @ + 1, !.nw = <<>>]

(*----------------------------- consumer ---------------------------------*)
GetRes(b)     == [b EXCEPT !.cur = <<Head(b.queue)>>, !.queue = Tail(@)]
ReleaseRes(b) == [b EXCEPT !.avail[Head(b.cur).p] = @ + 1, !.cur = <<>>]
PutRes(b)     == [b EXCEPT !.queue = b.cur \o @, !.cur = <<>>]

(*------------------------ flush, garbage collector -----------------------*)
FlushRes(b) ==
    [b EXCEPT !.avail = [p \in DOMAIN @ |-> @[p] +
                 Len(SelectSeq(b.queue, LAMBDA x : x.p = p))],
              !.queue = <<>>, !.st.fl = @ + 1]

\* pools without a frame in use are given back
Unused(b) == {p \in SeqSet(b.pools) : UsedOf(b, p) = 0}
GcRes(b) ==
    LET dead == Unused(b)
        live == SelectSeq(b.pools, LAMBDA p : p \notin dead)
        ls   == SeqSet(live)
    IN [b EXCEPT !.pools = live,
                 !.avail = [p \in ls \cup {0} |-> IF p = 0 THEN b.avail[0] ELSE 0],
                 !.coll  = [p \in ls |-> b.avail[p] + b.coll[p]],
                 !.st.gc = @ + 1]
AutoGcDue(c, b) == Len(b.queue) < (Len(b.pools) * c.dyn) \div c.gcl
AutoGcRes(c, b) == IF AutoGcDue(c, b) THEN GcRes(b) ELSE b
ResetRes(b)     == [b EXCEPT !.st = NoStats]

\* the statistics interface, in the order the harness logs it
StatVec(b) == << Len(b.queue), b.st.maxQ, b.st.dCur, b.st.dAll, b.st.dMax,
                 FreeCount(b), Len(b.pools), b.st.dynAll, b.st.dynMax,
                 b.st.unc, b.st.fl, b.st.gc >>

(*------------------------------ invariants -------------------------------*)
\* conservation: every frame of every pool is in exactly one place
Conserved(c, b) == \A p \in DOMAIN b.avail :
    b.avail[p] + (IF p = 0 THEN 0 ELSE b.coll[p]) + UsedOf(b, p) = SizeOf(c, p)
StorageUnique(b) == \A i, j \in 1..Len(InUse(b)) :
    i # j => InUse(b)[i].s # InUse(b)[j].s
Bounded(c, b) == Len(b.pools) <= c.max /\ Cardinality(SeqSet(b.pools)) = Len(b.pools)
FifoOrder(b) == LET q == b.cur \o b.queue IN
    \A i, j \in 1..Len(q) : i < j => q[i].v < q[j].v
=============================================================================
