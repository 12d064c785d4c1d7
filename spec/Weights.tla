------------------------------ MODULE Weights ------------------------------
(***************************************************************************)
(* Kernel weights: the documented kernel functions and the meaning of the  *)
(* bandwidth (docs/models/gwr-basic.rst, BandwidthWeight.h).               *)
(* A weight configuration is a record [k, ad, bw]: kernel name, adaptive   *)
(* flag, bandwidth (a number).                                             *)
(***************************************************************************)
EXTENDS LinAlg

Kernels == {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Compact == {"bisquare", "tricube", "boxcar"}

Pow2(x) == RMul(x, x)
Pow3(x) == RMul(x, RMul(x, x))

Kernel(k, d, b) ==
    LET q == RDiv(d, b) IN
    CASE k = "gaussian"    -> RExp(RDiv(Pow2(q), RInt(-2)))
      [] k = "exponential" -> RExp(RNeg(q))
      [] k = "bisquare"    -> IF RLt(d, b) THEN Pow2(RSub(R1, Pow2(q))) ELSE R0
      [] k = "tricube"     -> IF RLt(d, b) THEN Pow3(RSub(R1, Pow3(q))) ELSE R0
      [] k = "boxcar"      -> IF RLt(d, b) THEN R1 ELSE R0

\* the distance an adaptive bandwidth stands for
AdaptiveBw(b, ds) ==
    LET n == Len(ds) IN
    IF RLt(b, RInt(n))
    THEN LET v  == VSort(ds)
             i  == RToInt(RFloor(b))
             fr == RSub(b, RInt(i))
         IN RAdd(v[i], RMul(RSub(v[i + 1], v[i]), fr))
    ELSE RMul(RDiv(b, RInt(n)), VMax(ds))

EffBw(w, ds) == IF w.ad THEN AdaptiveBw(w.bw, ds) ELSE w.bw

\* a bandwidth that means something: at least one neighbour, positive reach
Usable(w, ds) ==
    /\ Len(ds) > 0
    /\ RFinite(w.bw)
    /\ w.ad => RLe(R1, w.bw)
    /\ LET e == EffBw(w, ds) IN RFinite(e) /\ RLt(RDec("1e-150"), e)

KernelVec(k, ds, b) == Force([i \in 1..Len(ds) |-> Kernel(k, ds[i], b)])
WeightVec(w, ds) == KernelVec(w.k, ds, EffBw(w, ds))

\* is the effective bandwidth reproducible bit by bit (no rounding in its derivation)?
ExactBw(w, ds) == ~w.ad \/ (RFloor(w.bw) = w.bw /\ RLe(w.bw, RInt(Len(ds))))

(* The observable claims about one weight vector ws for distances ds.  Returns the names of those that fail. *)
WeightClauses(w, ds, ws) ==
    LET n  == Len(ds)
        b  == EffBw(w, ds)
        ex == KernelVec(w.k, ds, b)
        \* just below a discontinuity that is not reproducible exactly, either value is right
        free(i) == w.k = "boxcar" /\ ~ExactBw(w, ds) /\ RNear(ds[i], b, RDec("1e-12"), R0)
        \* the kernels' own conditioning: the exponent or ratio is known to a few ulps only
        cond(i) == RAdd(R1, Pow2(RDiv(ds[i], b)))
        far(i)  == IF ExactBw(w, ds) THEN RLe(b, ds[i])
                   ELSE RLt(RMul(b, RDec("1.000000000001")), ds[i])
    IN IF Len(ws) # n THEN {"one weight per distance"}
       ELSE (IF \A i \in 1..n : free(i) \/ RNear(ws[i], ex[i], RMul(RDec("1e-13"), cond(i)), RDec("1e-13"))
             THEN {} ELSE {"weight equals the kernel formula"})
         \cup (IF \A i \in 1..n : RLe(R0, ws[i]) /\ RLe(ws[i], R1) THEN {} ELSE {"weight in [0,1]"})
         \cup (IF w.k \in Compact => \A i \in 1..n : far(i) => (ws[i] = R0 \/ ws[i] = RNeg(R0))
               THEN {} ELSE {"compact kernel is zero from the bandwidth outwards"})
         \cup (IF \A i, j \in 1..n : RLe(ds[i], ds[j]) => RLe(ws[j], RAdd(ws[i], RDec("1e-13")))
               THEN {} ELSE {"weight never increases with distance"})
=============================================================================
