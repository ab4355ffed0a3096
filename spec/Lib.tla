--------------------------------- MODULE Lib --------------------------------
(* The feeder libraries (gplib, radarcape/lib): when a submitted frame is       *)
(* queued and what is queued for it.                                            *)
EXTENDS Filter, Gps
\* time of the day in seconds and nanoseconds as 48 bits: 18 bits, 30 bits
Stamp(s, ns) == <<s \div 1024, (s \div 4) % 256, (s % 4) * 64 + ns \div 16777216,
                  (ns \div 65536) % 256, (ns \div 256) % 256, ns % 256>>
TypeOf(n) == IF n = 7 THEN 50 ELSE 51
Frame(type, b) == <<Sync, type>> \o Esc(b)
\* submitted to gplib: only frames with a time relative to UTC
GpTakes(e) == Len(e.p) \in {7, 14} /\ e.utc = 1
GpFrame(e) == Frame(TypeOf(Len(e.p)), Stamp(e.s, e.ns) \o <<e.rssi>> \o e.p)
\* submitted to the radarcape library: time stamp, signal level, payload
RcTakes(e) == e.ty \in {50, 51}
RcFrame(e) == Frame(e.ty, e.p)
=============================================================================
