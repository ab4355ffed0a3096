--------------------------------- MODULE Rc ---------------------------------
(* The byte stream of a Beast / Radarcape receiver: what it means.            *)
(* A frame is <<Sync, type>> followed by the escaped header and payload. The   *)
(* reader is a function of the bytes alone; reads and their sizes do not      *)
(* appear here.                                                                *)
EXTENDS Feed
CONSTANTS HdrLen, PayLen(_)
RcTypes == 49..52
RcInit == [m |-> "sync", ty |-> 0, d |-> <<>>, raw |-> <<>>, need |-> 0, out |-> <<>>, oos |-> 0, unk |-> 0]
\* the byte behind a synchronization byte, which is not another one
RcType(p, b) ==
  IF b \in RcTypes THEN [p EXCEPT !.m = "body", !.ty = b, !.d = <<>>, !.raw = <<Sync, b>>, !.need = HdrLen + PayLen(b)]
  ELSE [p EXCEPT !.m = "hunt", !.unk = @ + 1, !.d = <<>>, !.raw = <<>>]
RcData(p, b, r) ==
  LET q == [p EXCEPT !.m = "body", !.d = Append(@, b), !.raw = @ \o r] IN
  IF Len(q.d) < q.need THEN q
  ELSE [q EXCEPT !.m = "sync", !.d = <<>>, !.raw = <<>>,
          !.out = Append(@, [ty |-> q.ty, d |-> q.d, raw |-> q.raw, oos |-> q.oos, unk |-> q.unk])]
RcStep(p, b) ==
  CASE p.m = "sync"  -> IF b = Sync THEN [p EXCEPT !.m = "type"] ELSE [p EXCEPT !.m = "hunt", !.oos = @ + 1]
    [] p.m = "hunt"  -> IF b = Sync THEN [p EXCEPT !.m = "hunt2"] ELSE p
    [] p.m = "hunt2" -> IF b = Sync THEN [p EXCEPT !.m = "hunt"] ELSE RcType(p, b)
    [] p.m = "type"  -> IF b = Sync THEN [p EXCEPT !.m = "hunt", !.oos = @ + 1] ELSE RcType(p, b)
    [] p.m = "body"  -> IF b = Sync THEN [p EXCEPT !.m = "esc"] ELSE RcData(p, b, <<b>>)
    [] p.m = "esc"   -> IF b = Sync THEN RcData(p, Sync, <<Sync, Sync>>) ELSE RcType([p EXCEPT !.oos = @ + 1], b)
RcParse(p, bs) ==
  LET RECURSIVE go(_, _)
      go(q, i) == IF i > Len(bs) THEN q ELSE go(RcStep(q, bs[i]), i + 1)
  IN go(p, 1)
\* the stream ends or breaks: what has not been delivered is forgotten
RcCut(p) == [p EXCEPT !.m = "sync", !.d = <<>>, !.raw = <<>>, !.out = <<>>]
RcWire(ty, d) == <<Sync, ty>> \o Esc(d)
=============================================================================
