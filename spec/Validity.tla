------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* When the configuration of an algorithm is complete and consistent.      *)
(* A state holds what has been set so far; 0 and "none" stand for things   *)
(* not set.  Weights: [kind, bw, ad, kern] with kind none, weight (no      *)
(* distance), dist (no weight) or both.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
NoWeight == [kind |-> "none", bw |-> 0, ad |-> 1, kern |-> "gaussian"]
Unset(alg) == [alg |-> alg, coords |-> 0, dim |-> 2, nt |-> 0, xn |-> 0, xk |-> 0, y |-> 0, w |-> NoWeight, ws |-> << >>,
               inits |-> 0, initv |-> "null", apps |-> 0, cens |-> 0, thrs |-> 0, keep |-> 2, auto |-> FALSE]
Mono == {"basic", "robust", "lcr", "ggwr", "scal", "gtwr"}
Multivariate == {"gwss", "gwpca", "gwda"}
Algs == Mono \cup Multivariate \cup {"mgwr", "gwdr"}

Present(w) == w.kind = "both"
Weighted(w) == Present(w) /\ w.bw > 0
Coords(s) == s.coords > 0
Predictors(s) == s.xk > 0
Matching(s) == s.xn = s.y /\ s.xn = s.coords
Valid(s) ==
    /\ Coords(s)
    /\ CASE s.alg \in {"basic", "robust", "lcr", "ggwr"} -> Weighted(s.w) /\ Predictors(s) /\ Matching(s)
         [] s.alg = "scal" -> Weighted(s.w) /\ s.w.kern \in {"gaussian", "exponential"} /\ Predictors(s) /\ Matching(s)
         [] s.alg = "gtwr" -> Weighted(s.w) /\ Predictors(s) /\ Matching(s) /\ s.nt = s.coords
         [] s.alg = "gwss" -> Weighted(s.w) /\ Predictors(s) /\ s.xn = s.coords
         [] s.alg = "gwda" -> Weighted(s.w) /\ Predictors(s) /\ Matching(s)
         [] s.alg = "gwpca" -> Weighted(s.w) /\ Predictors(s) /\ s.xn = s.coords /\ s.keep > 0 /\ s.keep <= s.xk
         [] s.alg = "mgwr" -> /\ Predictors(s) /\ Matching(s)
                              /\ Len(s.ws) = s.xk /\ s.inits = s.xk /\ s.apps = s.xk /\ s.cens = s.xk /\ s.thrs = s.xk
                              /\ \A i \in 1..Len(s.ws) : Present(s.ws[i]) /\ (s.initv # "null" => s.ws[i].bw > 0)
         [] s.alg = "gwdr" -> /\ Predictors(s) /\ Matching(s) /\ Len(s.ws) = s.dim
                              /\ \A i \in 1..Len(s.ws) : Present(s.ws[i]) /\ s.ws[i].bw > 0
(* What is left open: whether a search needs a positive bandwidth to start *)
(* from, and an adaptive bandwidth of at most one neighbour.               *)
Open(s) == \/ s.alg = "mgwr" /\ \E i \in 1..Len(s.ws) : IF s.initv = "null" THEN s.ws[i].bw <= 0 ELSE s.ws[i].ad = 1 /\ s.ws[i].bw \in 1..1
           \/ s.alg = "gwdr" /\ s.auto /\ \E i \in 1..Len(s.ws) : s.ws[i].bw <= 0
           \/ s.alg = "gwpca" /\ s.keep > s.xk
=============================================================================
