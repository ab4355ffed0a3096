-------------------------------- MODULE List --------------------------------
(* Lists are sequences of elements; 0 is the end of a list.                     *)
EXTENDS Naturals, Sequences, FiniteSets
ToSet(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* position of an element, the end is behind the last one
Idx(s, e) == IF e = 0 THEN Len(s) + 1 ELSE CHOOSE i \in 1..Len(s) : s[i] = e
Before(s, e) == SubSeq(s, 1, Idx(s, e) - 1)
From(s, e) == SubSeq(s, Idx(s, e), Len(s))
After(s, e) == IF e = 0 THEN s ELSE SubSeq(s, Idx(s, e) + 1, Len(s))
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
Without(s, es) == SelectSeq(s, LAMBDA e : e \notin es)
Effect(q, o, a, x, y) ==
  CASE o = "push" -> [q EXCEPT ![a] = Append(@, x)]
    [] o = "unshift" -> [q EXCEPT ![a] = <<x>> \o @]
    [] o = "shift" -> IF q[a] = <<>> THEN q ELSE [q EXCEPT ![a] = Tail(@)]
    [] o = "pop" -> IF q[a] = <<>> THEN q ELSE [q EXCEPT ![a] = SubSeq(@, 1, Len(@) - 1)]
    [] o = "unlink" -> [q EXCEPT ![a] = Without(@, {x})]
    [] o = "insert" -> [q EXCEPT ![a] = Before(@, y) \o <<x>> \o From(@, y)]
    [] o = "cpush" -> [q EXCEPT ![a] = @ \o q[x], ![x] = <<>>]
    [] o = "cunshift" -> [q EXCEPT ![a] = q[x] \o @, ![x] = <<>>]
    [] o \in {"from", "lfrom"} -> [q EXCEPT ![a] = Before(q[a], y), ![x] = From(q[a], y)]
    [] o \in {"until", "luntil"} -> [q EXCEPT ![a] = From(q[a], y), ![x] = Before(q[a], y)]
    [] o = "vec" -> [q EXCEPT ![a] = [i \in 1..y |-> x + i - 1]]
    [] o = "init" -> [q EXCEPT ![a] = <<>>]
    [] o = "purge" -> [q EXCEPT ![a] = Without(@, {e \in ToSet(@) : (x \div 2 ^ (e - 1)) % 2 = 1})]
    [] OTHER -> q
Result(q, o, a, x, y) ==
  CASE o = "shift" \/ o = "begin" -> <<At(q[a], 1)>>
    [] o = "pop" \/ o = "last" -> <<At(q[a], Len(q[a]))>>
    [] o = "empty" -> <<IF q[a] = <<>> THEN 1 ELSE 0>>
    [] o = "length" -> <<Len(q[a])>>
    [] o = "at" -> <<At(q[a], x + 1)>>
    [] o = "rewind" -> <<IF x = 0 THEN 0 ELSE At(q[a], Len(q[a]) + 1 - x)>>
    [] o = "next" -> <<At(q[a], IF x = 0 THEN 1 ELSE Idx(q[a], x) + 1)>>
    [] o = "prev" -> <<At(q[a], Idx(q[a], x) - 1)>>
    [] o = "cont" -> After(q[a], x)
    [] o = "rcont" -> Rev(Before(q[a], x))
    [] o = "purge" -> IF y = 1 THEN Rev(q[a]) ELSE q[a]
    [] OTHER -> <<0>>
=============================================================================
