----------------------------- MODULE GenWeights -----------------------------
(* All distance vectors over 0..MaxD of length 1..MaxN, crossed with every kernel and every bandwidth worth telling
   apart; one scenario per vector.  Also checks, on the specification itself, that the documented shape (range,
   monotonicity, compact support, independence of the order) follows from the formulas. *)
EXTENDS Weights, Json, IOUtils, TLC, SequencesExt
CONSTANTS MaxN, MaxD
VARIABLE v
Vecs == UNION {[1..n -> 0..MaxD] : n \in 1..MaxN}
ABws(n) == {"1", "1.25", "1.5", "2", "2.75", "3", "3.5", "4", "5", "7.5"} 
FBws == {"0.5", "1", "1.5", "2", "2.25", "3", "10", "0.001", "1000000"}
Ops(d) == {[op |-> "w", k |-> k, ad |-> TRUE, bw |-> b, d |-> d] : k \in Kernels, b \in ABws(Len(d))}
     \cup {[op |-> "w", k |-> k, ad |-> FALSE, bw |-> b, d |-> d] : k \in Kernels, b \in FBws}
Real(d) == Force([i \in 1..Len(d) |-> RInt(d[i])])
Shape(d) ==
    \A o \in Ops(d) :
        LET w == [k |-> o.k, ad |-> o.ad, bw |-> RDec(o.bw)]
            ds == Real(d) IN
        Usable(w, ds) =>
            /\ WeightClauses(w, ds, WeightVec(w, ds)) = {}
            \* reversing the list reverses the weights
            /\ LET rev == Force([i \in 1..Len(d) |-> ds[Len(d) + 1 - i]])
                   a == WeightVec(w, ds)  b == WeightVec(w, rev)
               IN \A i \in 1..Len(d) : a[i] = b[Len(d) + 1 - i]
Init == v \in {[i \in 1..Len(x) |-> x[i]] : x \in Vecs}
Next == UNCHANGED v
Emit == Shape(v) /\ PrintT("SCN" \o ToJson(SetToSeq(Ops(v))))
=============================================================================
