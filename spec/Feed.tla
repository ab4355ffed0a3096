-------------------------------- MODULE Feed --------------------------------
(* Messages and data formats of the feed, shared by the specifications of    *)
(* its parts.                                                                 *)
EXTENDS Naturals, Integers, Sequences
Sync == 26
\* escaping: every synchronization byte is doubled, nothing else changes
RECURSIVE Esc(_)
Esc(b) == IF b = <<>> THEN <<>>
          ELSE IF Head(b) = Sync THEN <<Sync, Sync>> \o Esc(Tail(b))
          ELSE <<Head(b)>> \o Esc(Tail(b))
U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
MsgDev(type, ver) == <<Sync, 65>> \o Esc(U32(type) \o U32(ver[1]) \o U32(ver[2]) \o U32(ver[3]))
MsgSerial(v) == <<Sync, 53>> \o Esc(v)
MsgRequest == <<Sync, 66>>
MsgGps(b) == <<Sync, 55>> \o Esc(b)
MsgUser(b) == <<Sync, 67>> \o Esc(b)
MsgKeepAlive == <<Sync, 54>>

\* talkback: type, length including the header (2 bytes each, big endian)
TbFilter == 4
TbSerial == 5
RECURSIVE TbParse(_, _)
TbParse(buf, done) ==
  IF Len(buf) < 4 THEN [todo |-> done, rest |-> buf]
  ELSE LET n == buf[3] * 256 + buf[4] ty == buf[1] * 256 + buf[2] IN
       IF n > 128 \/ n < 4 THEN [todo |-> done, rest |-> <<>>]
       ELSE IF Len(buf) < n THEN [todo |-> done, rest |-> buf]
       ELSE TbParse(SubSeq(buf, n + 1, Len(buf)), Append(done, [ty |-> ty, pl |-> SubSeq(buf, 5, n)]))

Bit(x, k) == (x \div (2 ^ k)) % 2 = 1
\* filter: sync (filter on), ext (filter on), is (synchronized)
FilterPacket(f, mask, cfg) ==
  [sync |-> IF Bit(mask, 0) THEN Bit(cfg, 0) ELSE f.sync,
   ext  |-> IF Bit(mask, 1) THEN Bit(cfg, 1) ELSE f.ext,
   is   |-> IF Bit(mask, 7) THEN FALSE ELSE f.is]
Passes(f, ft, b0) ==
  /\ f.is \/ ~f.sync
  /\ ft \in {50, 51}
  /\ f.ext => (b0 \div 8) \in {17, 18}
=============================================================================
