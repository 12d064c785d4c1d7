------------------------------- MODULE GenScal -------------------------------
(* Random behaviours of scalable GWR: configure, then fits and predictions. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
R(S) == RandomElement(S)
Dist(i) == LET q == R(1..6) IN
    IF q = 1 THEN [dk |-> "crs", geo |-> 1, pts |-> "geoloc"]
    ELSE IF q = 2 THEN [dk |-> "mink", ord |-> R({"1", "3", "-1"}), theta |-> R({"0", "0.7"}), pts |-> R({"uni", "neg"})]
    ELSE [dk |-> "crs", pts |-> R({"uni", "uni", "clu", "neg", "big", "lattice"})]
Cfg(i) == Dist(0) @@
    [op |-> "cfg", id |-> 1, n |-> R({9, 14, 20, 26}), k |-> R({1, 2, 2, 3, 3, 4, 5}), seed |-> R(1..2000), xk |-> R({"uni", "uni", "int", "pos"}),
     yk |-> R({"smooth", "noise", "shift", "out"}), icpt |-> R({"1", "1", "1", "0"}), hat |-> R({0, 1}), crit |-> R({"CV", "AIC"}),
     kern |-> R({"gaussian", "exponential"}), ad |-> 1, bw |-> R({"4", "6", "8", "8.5", "12", "14", "20", "25", "40"}), poly |-> R({1, 2, 3, 4, 4, 5})]
Call(i) == LET q == R(1..5) IN IF q <= 2 THEN [op |-> "fit", id |-> 1] ELSE IF q = 3 THEN [op |-> "predict", id |-> 1, same |-> 1]
           ELSE [op |-> "predict", id |-> 1, ln |-> R({"1", "4", "9", "31", "n"}), ls |-> R(1..500)]
Init == h = << >>
Next == IF Len(h) = 0 THEN h' = << [op |-> "obj", id |-> 1, alg |-> "scal"], Cfg(0) >>
        ELSE IF Len(h) < K THEN h' = Append(h, Call(0))
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
