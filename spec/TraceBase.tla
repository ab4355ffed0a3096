----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications. A file of recorded executions   *)
(* (one JSON object per line) is read; tr selects the trace, l the next      *)
(* event. A trace is accepted iff its end is reachable: TLC then prints      *)
(* <<"OK", tr>>.                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
Meta(i) == Traces[i].meta
Evs(i)  == Traces[i].ev
NEv(i)  == Len(Traces[i].ev)
Has(e, f) == f \in DOMAIN e
\* "upto" is only set for locating the rejected event of a rejected trace
Limit(i) == IF Has(Traces[i], "upto") THEN Traces[i].upto ELSE NEv(i)
Accept(i, k) == IF k = Limit(i) + 1 THEN PrintT(<<"OK", i>>) ELSE TRUE
=============================================================================
