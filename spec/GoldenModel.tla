---------------------------- MODULE GoldenModel ----------------------------
(***************************************************************************)
(* Exhaustive exploration of the golden-section search over every integer  *)
(* range within Lo..Up and every objective: scores are revealed lazily     *)
(* from 0..Levels, one per distinct bandwidth, so every function onto that *)
(* many levels is covered.                                                 *)
(***************************************************************************)
EXTENDS GoldenSection, TLC
CONSTANTS Lo, Up, Levels, Fixed
VARIABLES lo, up, g, seen, pc
vars == <<lo, up, g, seen, pc>>
Ad == ~Fixed
\* reveal: the score of x, any of the levels the first time, the same ever after
Score(x) == IF x \in DOMAIN seen THEN {seen[x]} ELSE {RInt(v) : v \in 0..Levels}
Init == /\ lo \in Lo..Up /\ up \in lo..Up
        /\ g = [x1 |-> R0] /\ seen = << >> /\ pc = "start"
Start == /\ pc = "start"
         /\ LET b == Begin(RInt(lo), RInt(up), Ad) IN
            \E a \in Score(b.x1) : \E c \in (IF b.x1 = b.x2 THEN {a} ELSE Score(b.x2)) :
                /\ g' = b @@ [f1 |-> a, f2 |-> c]
                /\ seen' = (b.x1 :> a) @@ (b.x2 :> c)
         /\ pc' = "loop" /\ UNCHANGED <<lo, up>>
Loop == /\ pc = "loop" /\ GoesOn(g)
        /\ LET x == NextX(g, Ad) IN \E f \in Score(x) :
              g' = Advance(g, Ad, f) /\ seen' = (x :> f) @@ seen
        /\ UNCHANGED <<lo, up, pc>>
Stop == pc = "loop" /\ ~GoesOn(g) /\ pc' = "end" /\ UNCHANGED <<lo, up, g, seen>>
Next == Start \/ Loop \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InRange == pc # "start" => \A x \in DOMAIN seen : RLe(RInt(lo), x) /\ RLe(x, RInt(up))
Whole == (Ad /\ pc # "start") => \A x \in DOMAIN seen : RFloor(x) = x
BestOfLastTwo == pc = "end" => /\ Best(g) \in {g.x1, g.x2}
                               /\ seen[Best(g)] = RMin(g.f1, g.f2)
BestOfAll == pc = "end" => \A x \in DOMAIN seen : RLe(seen[Best(g)], seen[x])
Terminates == <>(pc = "end")
=============================================================================
