----------------------------- MODULE Regression -----------------------------
(***************************************************************************)
(* Local weighted least squares: the definitions every model of the        *)
(* library is built on.  X is a sequence of rows, y a vector, w a weight   *)
(* vector over the samples.                                                *)
(***************************************************************************)
EXTENDS LinAlg

\* symmetric scaling of a positive matrix to unit diagonal; the condition number of the scaled one
ScaleOf(A) == Force([a \in 1..Len(A) |-> IF RLt(R0, A[a][a]) THEN RSqrt(A[a][a]) ELSE R1])
CondOf(A, inv) ==
    LET d == ScaleOf(A) k == Len(A)
        B == Force2([a \in 1..k |-> Force([b \in 1..k |-> RDiv(A[a][b], RMul(d[a], d[b]))])])
        C == Force2([a \in 1..k |-> Force([b \in 1..k |-> RMul(inv[a][b], RMul(d[a], d[b]))])])
    IN RMul(MNormInf(B), MNormInf(C))

\* solution of the ridge-penalised local system: (X'WX + lam I) b = X'Wy
RidgeSolve(X, w, y, lam) ==
    LET k  == MCols(X)
        A0 == XtWX(X, w)
        A  == IF lam = R0 THEN A0 ELSE Force2([a \in 1..k |-> Force([b \in 1..k |-> IF a = b THEN RAdd(A0[a][b], lam) ELSE A0[a][b]])])
        r  == MInv(A)
        c  == IF r.ok THEN CondOf(A, r.inv) ELSE R0
    IN [ok |-> r.ok /\ RFinite(c), cond |-> c, inv |-> r.inv, A |-> A,
        beta |-> IF r.ok THEN MVec(r.inv, XtWy(X, w, y)) ELSE << >>]
LocalSolve(X, w, y) == RidgeSolve(X, w, y, R0)
\* C = inv(X'WX) X'W, so that beta = C y
CMat(sol, X, w) == MMul(sol.inv, XtW(X, w))

CondLimit == RDec("1e7")
Judged(sol) == sol.ok /\ RLe(sol.cond, CondLimit)
\* how far a computed solution may be from the specified one, relative to its scaled size
SolTol(sol) == RAdd(RDec("1e-10"), RMul(RDec("1e-12"), sol.cond))

\* coefficients b agree with the specified local solution
BetaOkT(sol, b, xt) ==
    LET d == ScaleOf(sol.A)
    IN /\ Len(b) = Len(sol.beta)
       /\ VFinite(b)
       /\ VClose(VMul(d, b), VMul(d, sol.beta), RAdd(SolTol(sol), xt), RDec("1e-12"))
BetaOk(sol, b) == BetaOkT(sol, b, R0)

\* no solution can exist: fewer than one usable sample, or just one for several coefficients one of which is an intercept
Support(w) == {i \in 1..Len(w) : w[i] # R0 /\ w[i] # RNeg(R0)}
Unsolvable(X, w) ==
    \/ Support(w) = {}
    \/ /\ MCols(X) >= 2
       /\ \A i \in 1..Len(X) : X[i][1] = R1
       /\ \A i \in Support(w) : w[i] = R1
       /\ Cardinality(Support(w)) = 1

Fitted(X, B)  == RowDot(X, B)
Residual(X, y, B) == VSub(y, Fitted(X, B))
Sumsq(v) == VDot(v, v)
RSSOf(X, y, B) == Sumsq(Residual(X, y, B))
\* rounding noise of a residual sum of squares
RSSNoise(X, y, B) == RMul(RDec("1e-12"), RAdd(Sumsq(y), Sumsq(Fitted(X, B))))
Pi2 == RDec("6.28318530717958647692")
AICcOf(n, rss, trS) ==
    LET N == RInt(n) IN
    RAdd(RAdd(RMul(N, RLog(RDiv(rss, N))), RMul(N, RLog(Pi2))),
         RMul(N, RDiv(RAdd(N, trS), RSub(RSub(N, R2), trS))))
TSS(y) == LET m == VMean(y) IN Sumsq(VShift(RNeg(m), y))

\* the seven diagnostics of a linear local model, in the order RSS, AIC, AICc, ENP, EDF, R2, adjusted R2
DiagOf(n, rss, tss, trS, trStS) ==
    LET N == RInt(n)
        edf == RAdd(RSub(N, RMul(R2, trS)), trStS)
        r2 == RSub(R1, RDiv(rss, tss))
    IN << rss,
          RAdd(RAdd(RMul(N, RLog(RDiv(rss, N))), RMul(N, RLog(Pi2))), RAdd(N, trS)),
          AICcOf(n, rss, trS),
          RSub(RMul(R2, trS), trStS),
          edf,
          r2,
          RSub(R1, RDiv(RMul(RSub(R1, r2), RSub(N, R1)), RSub(edf, R1))) >>
DiagNames == << "RSS", "AIC", "AICc", "ENP", "EDF", "R2", "adjusted R2" >>

(* Diagnostics dg agree with coefficients B and the trace pair sh by their definitions: names of those that do not. *)
DiagClauses(X, y, B, sh, dg) ==
    LET n   == Len(y) N == RInt(n)
        rss == RSSOf(X, y, B)
        nz  == RSSNoise(X, y, B)
        tss == TSS(y)
        ex  == DiagOf(n, rss, tss, sh[1], sh[2])
        rel == RDiv(nz, rss)
        \* error amplification where a definition divides by a small difference
        amp2 == RAdd(R1, RAbs(RDiv(N, RSub(RSub(N, R2), sh[1]))))
        amp4 == RAdd(R1, RAbs(RDiv(N, RSub(ex[5], R1))))
        t(i) == CASE i = 1 -> nz
                  [] i = 2 -> RAdd(RDec("1e-9"), RMul(R2, RMul(N, rel)))
                  [] i = 3 -> RAdd(RMul(R2, RMul(N, rel)), RMul(RDec("1e-9"), RMul(N, RMul(amp2, amp2))))
                  [] i \in {4, 5} -> RDec("1e-9")
                  [] i = 6 -> RAdd(RDec("1e-11"), RDiv(nz, tss))
                  [] i = 7 -> RMul(RMul(amp4, amp4), RAdd(RDec("1e-10"), RDiv(nz, tss)))
        judged(i) == \/ i \in {1, 4, 5}
                     \/ i \in {2, 3} /\ RLt(RMul(RInt(100), nz), rss)
                     \/ i \in {6, 7} /\ RLt(RMul(RDec("1e-10"), Sumsq(y)), tss)
    IN IF Len(dg) # 7 THEN {"seven diagnostics"}
       ELSE { "diagnostic " \o DiagNames[i] : i \in { j \in 1..7 : judged(j) /\ ~RNear(dg[j], ex[j], RDec("1e-9"), t(j)) } }

\* all local solutions, one weight vector per focus
Solve(X, y, W) == Force([i \in 1..Len(W) |-> LocalSolve(X, W[i], y)])
HatRow(sol, X, w, x) == VMat(x, CMat(sol, X, w))
HatMatrix(sols, X, W) == Force2([i \in 1..Len(W) |-> HatRow(sols[i], X, W[i], X[i])])
TracePair(S) == << MTrace(S), VSum([i \in 1..Len(S) |-> Sumsq(S[i])]) >>
\* diag of (I-S)'(I-S)
LeverageDiag(S) == Force([j \in 1..Len(S) |-> VSum([i \in 1..Len(S) |->
                      LET v == RSub(IF i = j THEN R1 ELSE R0, S[i][j]) IN RMul(v, v)])])
MaxTol(sols) == VMax([i \in 1..Len(sols) |-> SolTol(sols[i])])
=============================================================================
