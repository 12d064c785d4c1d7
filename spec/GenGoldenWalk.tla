--------------------------- MODULE GenGoldenWalk ---------------------------
(* Objective families over wide ranges: valleys, noise, plateaus, steps, regions of refused candidates, interruptions. *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Objs == {"valley", "noise", "plateau", "step", "rise", "fall", "flat", "hugelow", "hugehigh", "hugenoise", "tiny", "multi"}
Op(c) ==
    CASE c \in {1, 2} ->
         LET lo == R(1..40) IN
         [op |-> "golden", lo |-> lo, up |-> lo + R({0, 1, 2, 3, 5, 8, 13, 29, 61, 100, 379, 1600}), ad |-> TRUE]
      [] c \in {3, 4} ->
         [op |-> "golden", lo |-> R({"0", "0.001", "1.5", "100.25"}), up |-> R({"100.25", "250", "33333.3", "1e6"}), ad |-> FALSE]
Full(c) == Op(c) @@ [k |-> R(Ks), bw |-> R({"3", "20", "0.5"}), obj |-> R(Objs), seed |-> R(1..5000),
                     stop |-> R({0, 0, 0, 1, 2, 3, 4, 6, 9}), again |-> R({0, 1})]
Init == h = << >>
Emit == PrintT("SCN" \o ToJson(h)) /\ h' = << >>
\* one to three searches, the later ones on the selector of the one before when again=1
Next == IF Len(h) = 3 THEN Emit
        ELSE \/ \E c \in 1..4 : \E stop \in {TRUE, FALSE} :
                   h' = Append(h, IF stop THEN Full(c) ELSE [Full(c) EXCEPT !.stop = 0])
             \/ Len(h) > 0 /\ Emit
=============================================================================
