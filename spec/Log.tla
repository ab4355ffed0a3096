--------------------------------- MODULE Log ----------------------------------
(* What a log message looks like in the output. Texts are sequences of bytes.     *)
EXTENDS Naturals, Integers, Sequences
Emerg == 4
Levels == << <<73, 78, 70, 79>>, <<68, 69, 66, 85, 71>>, <<87, 65, 82, 78>>, <<69, 82, 82, 79, 82>>, <<69, 77, 69, 82, 71>> >>
Br(x) == <<91>> \o x \o <<93, 32>>
\* libraries cut a formatted text
Cut(x, lib) == IF lib /\ Len(x) > 2047 THEN SubSeq(x, 1, 2047) ELSE x
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* lv: level, pfx: name of the component (none: not there), txt: the text, fm: it is formatted
\* err, str: number and text of an error
Text(m, lib) == IF m.fm = 1 THEN Cut(m.txt, lib) ELSE m.txt
\* what is said about a number which is no error's
Unknown == {<<85, 110, 107, 110, 111, 119, 110, 32, 69, 114, 114, 111, 114>>,
            <<85, 110, 107, 110, 111, 119, 110, 32, 101, 114, 114, 111, 114>>}
Lines(m, lib) ==
  LET a == Br(Levels[m.lv + 1]) \o (IF m.nopfx = 1 THEN <<>> ELSE Br(m.pfx)) \o Text(m, lib)
  IN IF m.iserr = 0 THEN {a \o <<10>>}
     ELSE {a \o <<58>> \o sp \o x \o <<32, 40>> \o Dec(m.err) \o <<41, 10>> :
             sp \in {<<>>, <<32>>}, x \in {m.str} \cup (IF m.known = 1 THEN {} ELSE Unknown)}
\* errors have a stream of their own in the libraries
Stream(m, lib) == IF lib /\ m.lv \in {3, 4} THEN 2 ELSE 1
=============================================================================
