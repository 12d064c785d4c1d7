----------------------------- MODULE RobustSpec -----------------------------
(***************************************************************************)
(* Robust GWR.  The outlying samples are found from an ordinary fit; in    *)
(* filtering mode they are removed once, otherwise all samples are         *)
(* re-weighted by their residuals until the mean squared error settles.    *)
(***************************************************************************)
EXTENDS GwrSpec

Masked(W, m) == Force([i \in 1..Len(W) |-> Force(VMul(W[i], m))])
BetasOf(sols) == Force2([i \in 1..Len(sols) |-> sols[i].beta])
\* studentised residuals of the plain fit
Student(X, y, W, sols) ==
    LET n   == Len(y)
        S   == HatMatrix(sols, X, W)
        sh  == TracePair(S)
        B   == BetasOf(sols)
        s2  == RDiv(RSSOf(X, y, B), RAdd(RSub(RInt(n), RMul(R2, sh[1])), sh[2]))
        q   == LeverageDiag(S)
        rs  == Residual(X, y, B)
    IN Force([i \in 1..n |-> RDiv(rs[i], RSqrt(RMul(s2, q[i])))])
FiltMask(stu) == Force([i \in 1..Len(stu) |-> IF RLt(RInt(3), RAbs(stu[i])) THEN R0 ELSE R1])
\* is every sample clearly in or out, and the estimate of the error variance meaningful
FiltClear(X, y, W, sols, stu) ==
    LET B == BetasOf(sols) IN
    /\ RLt(RMul(RInt(10000), RSSNoise(X, y, B)), RSSOf(X, y, B))
    \* a sample every focus reproduces exactly has neither residual nor leverage but rounding
    /\ LET q == LeverageDiag(HatMatrix(sols, X, W)) IN \A i \in 1..Len(stu) : RLt(RDec("1e-8"), q[i])
    /\ \A i \in 1..Len(stu) : RFinite(stu[i]) /\ ~RNear(RAbs(stu[i]), RInt(3), RDec("1e-6"), R0)

\* weights of the iterative mode
HuberLike(r) == IF RLe(r, R2) THEN R1 ELSE IF RLt(r, RInt(3)) THEN Pow2(RSub(R1, Pow2(RSub(r, R2)))) ELSE R0
MseOf(X, y, B) == RDiv(RSSOf(X, y, B), RInt(Len(y)))
IterMask(X, y, B, mse) == LET s == RSqrt(mse) rs == Residual(X, y, B) IN Force([i \in 1..Len(y) |-> HuberLike(RAbs(RDiv(rs[i], s)))])
Delta == RDec("1e-5")
\* the re-weighting loop: the mask of the last fit, or no answer where a round is not reproducible
RECURSIVE IterRounds(_, _, _, _, _, _)
IterRounds(X, y, W, mask, mse, it) ==
    LET sols == Solve(X, y, Masked(W, mask)) IN
    IF \E i \in 1..Len(y) : ~sols[i].ok THEN [ok |-> FALSE, fails |-> TRUE, mask |-> mask, rounds |-> it]
    ELSE IF \E i \in 1..Len(y) : ~Judged(sols[i]) THEN [ok |-> FALSE, fails |-> FALSE, mask |-> mask, rounds |-> it]
    ELSE LET B == BetasOf(sols)
             m2 == MseOf(X, y, B)
             df == RDiv(RAbs(RSub(mse, m2)), m2)
         IN IF RNear(df, Delta, RDec("1e-3"), R0) \/ ~RFinite(df) THEN [ok |-> FALSE, fails |-> FALSE, mask |-> mask, rounds |-> it]
            ELSE IF RLe(df, Delta) \/ it + 1 >= 20 THEN [ok |-> TRUE, fails |-> FALSE, mask |-> mask, rounds |-> it + 1]
            ELSE IterRounds(X, y, W, IterMask(X, y, B, m2), m2, it + 1)
IterFinal(X, y, W) ==
    LET sols == Solve(X, y, W) IN
    IF \E i \in 1..Len(y) : ~Judged(sols[i]) THEN [ok |-> FALSE, fails |-> FALSE, mask |-> << >>, rounds |-> 0]
    ELSE LET B == BetasOf(sols) mse == MseOf(X, y, B) IN
         IF ~RLt(RMul(RInt(10000), RSSNoise(X, y, B)), RSSOf(X, y, B)) THEN [ok |-> FALSE, fails |-> FALSE, mask |-> << >>, rounds |-> 0]
         ELSE IterRounds(X, y, W, IterMask(X, y, B, mse), mse, 0)

RobustClauses(d, c, bw, X, e) ==
    LET w    == WeightOf(c, bw)
        dr   == SelfDist(c, d)
        y    == d.y
        W    == WeightsFor(w, dr)
        sols == Solve(X, y, W)
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {}
       ELSE IF \E i \in 1..Len(y) : Unsolvable(X, W[i]) THEN When(e.threw, "an unsolvable local system fails with an error")
       ELSE IF \E i \in 1..Len(y) : ~Judged(sols[i]) THEN {}
       ELSE IF GetB(c, "filt", "0")
       THEN LET stu == Student(X, y, W, sols) IN
            IF ~FiltClear(X, y, W, sols, stu) THEN {}
            ELSE FitW(X, y, Masked(W, FiltMask(stu)), c, bw, e, RDec("1e-10"))
       ELSE LET f  == IterFinal(X, y, W)
                \* the same loop on a response that differs in the tenth digit tells how much rounding can matter
                y2 == Force([i \in 1..Len(y) |-> RMul(y[i], RAdd(R1, RMul(RDec("1e-10"), RSub(RRand(17, i), RDec("0.5")))))])
                g  == IterFinal(X, y2, W)
                gap == IF f.ok /\ g.ok /\ f.rounds = g.rounds THEN VMaxAbs(VSub(f.mask, g.mask)) ELSE R1
            IN IF RLt(RDec("1e-6"), gap) THEN {}
               ELSE FitW(X, y, Masked(W, f.mask), c, bw, e, RAdd(RDec("1e-9"), RMul(RInt(100), gap)))
=============================================================================
