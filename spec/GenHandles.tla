----------------------------- MODULE GenHandles -----------------------------
(* Histories of weighting configurations.  Mode "walk": random histories of length K; mode "all": every pair of
   operations after a fixed preparation (three differently filled slots). *)
EXTENDS Integers, Sequences, Json, TLC, SequencesExt
CONSTANTS K, Mode
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}
H == 1..3
Wt(i) == [k |-> R(Ks), ad |-> R(BOOLEAN), bw |-> R({"2", "3", "4.5", "12"})]
Ds(kind) == LET p == R({"crs", "mink"}) IN
            [kind |-> kind, geo |-> (kind = "crs" \/ (kind = "st" /\ p = "crs")) /\ R({FALSE, FALSE, TRUE}),
             ord |-> R({"1", "3"}), theta |-> R({"0", "0.5"}), sp |-> p, lambda |-> R({"0.4", "1", "0"})]
Make(x) == [op |-> "make", h |-> x, g |-> x, pts |-> R({"uni", "lattice", "neg"}), n |-> R({3, 5}), m |-> R({0, 2, -2}), seed |-> R(1..50)]
New(x, kind) == [op |-> "new", h |-> x, g |-> x, how |-> R({"ptr", "ref"})] @@ Wt(x) @@ Ds(kind)
Kinds == {"crs", "mink", "one", "st"}
Op(c) == LET x == R(H) y == R(H) IN
    CASE c = 1  -> New(x, R(Kinds))
      [] c = 2  -> [op |-> R({"new0", "nop"}), h |-> x, g |-> x]
      [] c = 3  -> [op |-> "copy", h |-> x, g |-> y]
      [] c = 4  -> [op |-> "cctor", h |-> x, g |-> y]
      [] c = 5  -> [op |-> "move", h |-> x, g |-> y]
      [] c = 6  -> [op |-> "mctor", h |-> x, g |-> y]
      [] c = 7  -> [op |-> "setw", h |-> x, g |-> x, how |-> R({"ptr", "ref", "rv"})] @@ Wt(x)
      [] c = 8  -> [op |-> "setd", h |-> x, g |-> x, how |-> R({"ptr", "ref", "rv"})] @@ Ds(R(Kinds))
      [] c = 9  -> [op |-> "setwfrom", h |-> x, g |-> y, how |-> R({"ptr", "ref"})]
      [] c = 10 -> [op |-> "setdfrom", h |-> x, g |-> y, how |-> R({"ptr", "ref"})]
      [] c = 11 -> [op |-> R({"mutbw", "mutk", "mutad", "mutgeo", "mutord"}), h |-> x, g |-> x] @@ Ds("crs") @@ Wt(x)
      [] c \in {12, 13} -> Make(x)
      [] c = 14 -> [op |-> "give", h |-> 4, g |-> x]
      [] c = 15 -> [op |-> "take", h |-> x, g |-> R({4, 5, 6})]
      [] c = 16 -> [op |-> "giveall", h |-> x, g |-> y]
Ops2 == {[op |-> o, h |-> x, g |-> y, how |-> w] : o \in {"copy", "cctor", "move", "mctor", "setwfrom", "setdfrom"},
                                                   x \in H, y \in H, w \in {"ptr", "ref"}}
   \cup {[op |-> "give", h |-> 4, g |-> x] : x \in H} \cup {[op |-> "take", h |-> x, g |-> 4] : x \in H}
Mut == <<[op |-> "mutbw", h |-> 1, g |-> 1, bw |-> "2.75"], [op |-> "mutk", h |-> 2, g |-> 2, k |-> "exponential"]>>
Prep == <<[op |-> "new", h |-> 1, g |-> 1, k |-> "bisquare", ad |-> TRUE, bw |-> "3", kind |-> "crs", geo |-> FALSE],
          [op |-> "make", h |-> 1, g |-> 1, pts |-> "uni", n |-> 5, m |-> 0, seed |-> 3],
          [op |-> "new", h |-> 2, g |-> 2, k |-> "gaussian", ad |-> FALSE, bw |-> "4.5", kind |-> "one", geo |-> FALSE],
          [op |-> "make", h |-> 2, g |-> 2, pts |-> "uni", n |-> 4, m |-> 2, seed |-> 4]>>
Init == h = << >>
Next == IF Mode = "all"
        THEN /\ h = << >>
             /\ \E a \in Ops2, b \in Ops2 : h' = Prep \o <<a, b>> \o Mut
             /\ PrintT("SCN" \o ToJson(h'))
        \* at last every slot is given points, so that the parameters of its distance show
        ELSE IF Len(h) \in K - 3..K - 1 THEN h' = Append(h, Make(Len(h) - K + 4))
        ELSE IF Len(h) < K THEN \E c \in 1..16 : h' = Append(h, Op(c))
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
