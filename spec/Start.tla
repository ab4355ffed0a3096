------------------------------- MODULE Start --------------------------------
(* How a daemon comes up and goes down: first the configuration is read and       *)
(* checked, then what is needed before is done (Need: device type, user name,     *)
(* serial number), every part is initialized after those it depends on, and only  *)
(* when all are, they are started in that order. Whatever fails ends the process, *)
(* with nothing left running. At the end everything is stopped and destructed.    *)
(* D: dependencies; Roots: the parts of this daemon; en: the parts which are not  *)
(* disabled by the configuration.                                                 *)
EXTENDS Comp
CONSTANTS D, Roots, Need
Parts == Close(D, Roots)
First == [ph |-> "cfg", en |-> {}, need |-> Need, inited |-> {}, started |-> {}, retry |-> {}]
Ph(s, p) == [s EXCEPT !.ph = p]
Kinds == {"bad", "good", "need", "init", "start", "wait", "stop", "destruct", "emerg", "end", "save"}
\* the configuration was bad or good, the latter with these parts enabled
Good(s, en) == IF s.ph = "cfg" THEN {[Ph(s, "up") EXCEPT !.en = en]} ELSE {}
Bad(s) == IF s.ph = "cfg" THEN {Ph(s, "die")} ELSE {}
\* something which is needed before anything is started; ok: it could be had
Done(s, k, ok) == IF s.ph = "up" /\ k \in s.need /\ s.started = {} THEN {IF ok THEN [s EXCEPT !.need = @ \ {k}] ELSE Ph(s, "die")} ELSE {}
Init(s, c, ok) ==
  IF s.ph = "up" /\ s.started = {} /\ UpOk(D, s.en, s.inited, c)
  THEN {IF ok THEN [s EXCEPT !.inited = @ \cup {c}] ELSE Ph(s, "undo")} ELSE {}
Ready(s) == s.inited = s.en /\ s.need = {}
StartC(s, c, ok) ==
  IF s.ph = "up" /\ Ready(s) /\ UpOk(D, s.en, s.started, c)
  THEN {IF ok THEN [s EXCEPT !.started = @ \cup {c}] ELSE Ph(s, "halt")} ELSE {}
Running(s) == s.ph = "up" /\ Ready(s) /\ s.started = s.en
Wait(s) == IF Running(s) THEN {Ph(s, "down")} ELSE {}
\* a part which could not be stopped at once is tried again
Stop(s, c, ok) ==
  IF s.ph \in {"halt", "down"} /\ c \in s.started /\ (DownOk(D, s.started, c) \/ DownOk(D, s.started \ s.retry, c))
  THEN {IF ok THEN [s EXCEPT !.started = @ \ {c}, !.retry = @ \ {c}] ELSE [s EXCEPT !.retry = @ \cup {c}]} ELSE {}
Destruct(s, c) ==
  IF s.ph \in {"undo", "down"} /\ s.started = {} /\ c \in s.inited /\ DownOk(D, s.inited, c) THEN {[s EXCEPT !.inited = @ \ {c}]} ELSE {}
Emerg(s) ==
  IF s.ph = "die" \/ (s.ph = "undo" /\ s.inited = {}) \/ (s.ph = "halt" /\ s.started = {}) THEN {Ph(s, "dead")} ELSE {}
\* only the configuration was asked for
Saved(s) == IF s.ph = "up" /\ s.inited = {} /\ s.need = Need THEN {Ph(s, "over")} ELSE {}
End(s) == IF s.ph = "down" /\ s.inited = {} THEN {Ph(s, "over")} ELSE {}
=============================================================================
