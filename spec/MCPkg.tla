------------------------------- MODULE MCPkg --------------------------------
(* The questionnaire as it is programmed (debian/*.config): it goes round until   *)
(* all answers are valid or nothing was shown; against what it has to be (Pkg).   *)
(* Fixed = FALSE: as it was, going round until all answers are valid.             *)
EXTENDS Integers, FiniteSets
CONSTANTS Fixed
Qs == {"lat", "user", "serial"}
Vals == {"empty", "good", "bad"}
OkM(q, b) == b = "good" \/ (b = "empty" /\ q # "lat")
RankM(q) == IF q = "lat" THEN 1 ELSE 2
DefM == [q \in Qs |-> "empty"]
P == INSTANCE Pkg WITH Q <- Qs, Def <- DefM, Ok <- OkM, Rank <- RankM
VARIABLES v, seen, thr, ni, reshow, from, first, pc, asked, shown, n, v0, told
vars == <<v, seen, thr, ni, reshow, from, first, pc, asked, shown, n, v0, told>>
Start == [Qs -> Vals]
Init == /\ v \in Start /\ seen \in {s \in SUBSET Qs : s \in {{}, {"lat"}, {"serial", "user"}, Qs}}
        /\ thr \in 0..2 /\ ni \in BOOLEAN /\ reshow \in BOOLEAN /\ from \in BOOLEAN
        /\ first = TRUE /\ pc = "check" /\ asked = {} /\ shown = <<>> /\ n = 0 /\ v0 = v /\ told = FALSE
Seen == IF from THEN seen \cup {"serial"} ELSE seen
Fail == IF first THEN Qs ELSE P!Invalid(v)
Visible(qs, sn) == IF ni THEN {} ELSE {q \in qs : RankM(q) <= thr /\ (reshow \/ q \notin sn)}
\* one round: reset what failed, ask, take the answers. The administrator gets it right in the end (after two mistakes)
Round == LET ask == Visible(Fail, IF first THEN Seen ELSE Seen \ Fail)
             w == [q \in Qs |-> IF ~first /\ q \in Fail THEN DefM[q] ELSE v[q]]
         IN /\ pc = "check" /\ Fail # {}
            /\ \E a \in [ask -> IF n < 2 THEN Vals ELSE {"good"}] : v' = [q \in Qs |-> IF q \in ask THEN a[q] ELSE w[q]]
            /\ asked' = ask /\ shown' = <<first, ask, v>>
            /\ n' = IF ask # {} /\ n < 2 THEN n + 1 ELSE n
            /\ pc' = IF Fixed /\ ~first /\ ask = {} THEN "msg" ELSE "check"
            /\ first' = FALSE /\ UNCHANGED <<seen, thr, ni, reshow, from, v0, told>>
Stop == pc = "check" /\ Fail = {} /\ pc' = "msg" /\ UNCHANGED <<v, seen, thr, ni, reshow, from, first, asked, shown, n, v0, told>>
Msg == /\ pc = "msg" /\ pc' = "end" /\ told' = (~ni /\ v0["user"] # "empty" /\ v["user"] # v0["user"])
       /\ UNCHANGED <<v, seen, thr, ni, reshow, from, first, asked, shown, n, v0>>
Next == Round \/ Stop \/ Msg
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what is shown is what has to be shown
Shows == shown # <<>> => shown[2] = (IF shown[1] THEN P!First(Seen, thr, ni, reshow) ELSE P!Again(shown[3], thr, ni))
Keeps == [][P!Kept(v, v', asked')]_vars
EndsWell == pc = "end" => P!Done(v, thr, ni)
Ends == <>(pc = "end")
=============================================================================
