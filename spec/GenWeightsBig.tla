--------------------------- MODULE GenWeightsBig ---------------------------
(* Larger and tied distance vectors, and whole configurations (kernel weight of a distance object), by random walk. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT K
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Op(c) ==
    CASE c = 1 -> [op |-> "w", k |-> R(Ks), ad |-> TRUE, n |-> R({1, 7, 13, 40}), seed |-> R(1..500), scale |-> "1",
                   bw |-> R({"1", "2", "4.5", "7", "12", "12.999", "13", "13.01", "20", "39", "40", "41", "80"})]
      [] c = 2 -> [op |-> "w", k |-> R(Ks), ad |-> FALSE, n |-> R({1, 7, 40}), seed |-> R(1..500),
                   scale |-> R({"1", "1e-4", "1e5"}), bw |-> R({"1e-5", "0.3", "1", "2", "5.5", "1000", "2e6"})]
      [] c = 3 -> [op |-> "sw", k |-> R(Ks), ad |-> TRUE, bw |-> R({"2", "3", "4.5", "8", "9", "12"}),
                   kind |-> R({"crs", "one", "st"}), geo |-> FALSE, sp |-> "crs", lambda |-> R({"0.3", "1"}),
                   pts |-> R({"uni", "lattice", "dup", "big"}), n |-> 9, m |-> R({0, 2}), seed |-> R(1..90)]
      [] c = 4 -> [op |-> "sw", k |-> R(Ks), ad |-> FALSE, bw |-> R({"1", "2.5", "4", "300"}), kind |-> R({"crs", "mink"}),
                   geo |-> FALSE, ord |-> R({"1", "3"}), theta |-> "0.5", pts |-> R({"uni", "lattice", "dup", "big"}),
                   n |-> 9, m |-> R({0, 2}), seed |-> R(1..90)]
      [] c = 5 -> [op |-> "sw", k |-> R(Ks), ad |-> FALSE, bw |-> R({"10", "50", "5000"}), kind |-> "crs", geo |-> TRUE,
                   pts |-> R({"geo", "geoloc", "dateline"}), n |-> 9, m |-> R({0, 2}), seed |-> R(1..90)]
Init == h = << >>
Next == IF Len(h) < K THEN \E c \in 1..5 : h' = Append(h, Op(c))
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
