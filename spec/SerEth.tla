------------------------------- MODULE SerEth -------------------------------
(* The serial number of devices with an Ethernet device: it is configured or the  *)
(* lower 31 bits of the hardware address; once known it stays. given, no: whether *)
(* there is a number and which (four bytes). w: the world, with the address mac   *)
(* and whether the socket API (sock, and an Ethernet device: eth) and sysfs (sys) *)
(* tell it.                                                                       *)
EXTENDS Integers, Sequences
Lower31(mac) == <<mac[3] % 128, mac[4], mac[5], mac[6]>>
Must(w) == w.eth /\ (w.sock \/ w.sys)
May(w) == Must(w) \/ w.sys     \* sysfs may be believed for other devices, too
\* the possible results: ok, and the number then
Get(given, no, w) ==
  IF given THEN {[ok |-> TRUE, no |-> no]}
  ELSE (IF May(w) THEN {[ok |-> TRUE, no |-> Lower31(w.mac)]} ELSE {}) \cup (IF Must(w) THEN {} ELSE {[ok |-> FALSE, no |-> no]})
RECURSIVE Esc(_)
Esc(b) == IF b = <<>> THEN <<>> ELSE (IF Head(b) = 26 THEN <<26, 26>> ELSE <<Head(b)>>) \o Esc(Tail(b))
=============================================================================
