------------------------------ MODULE ScalSpec ------------------------------
(***************************************************************************)
(* Scalable GWR: local weights are a global term (the penalty) plus, for   *)
(* the nearest neighbours, a polynomial of powers of one base kernel.      *)
(***************************************************************************)
EXTENDS GwrSpec

Neighbours(n, bw) == IF bw < n THEN bw ELSE n - 1
\* the m nearest samples of a focus; clear when no other sample is (almost) as near as the last of them
Nearest(dr, m) ==
    LET o == VSortIndex(dr) v == [i \in 1..Len(o) |-> dr[o[i]]] IN
    [idx |-> [i \in 1..m |-> o[i]], clear |-> m = Len(dr) \/ ~RNear(v[m], v[m + 1], RDec("1e-10"), R0)]
Median(v) == LET s == VSort(v) n == Len(v) IN
             IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), R2)
\* the scale of the base kernel: from the median distance to the at most 50th neighbour
BaseBw(c, DR, col) ==
    LET m == Median(Force([i \in 1..Len(DR) |-> VSort(DR[i])[col]])) IN
    IF Get(c, "kern", "gaussian") = "gaussian" THEN RDiv(m, RSqrt(RInt(3))) ELSE RDiv(m, RInt(3))
Base(c, d, b) == LET q == RDiv(d, b) IN IF Get(c, "kern", "gaussian") = "gaussian" THEN RExp(RNeg(RMul(q, q))) ELSE RExp(RNeg(q))
Poly(c) == GetI(c, "poly", "4")
\* the coefficients of the polynomial, summing to one
PolyCoef(c, b) == LET r == [p \in 1..(Poly(c) + 1) |-> RPow(b, RInt(p))] s == VSum(r) IN Force([p \in 1..(Poly(c) + 1) |-> RDiv(r[p], s)])
Power(c, p) == RDiv(RPow(R2, RDiv(RInt(Poly(c)), R2)), RPow(R2, RInt(p)))
\* the powers of the base kernel at a distance, the constant one first
Powers(c, d, b) == LET g == Base(c, d, b) IN Force([p \in 1..(Poly(c) + 1) |-> IF p = 1 THEN R1 ELSE RPow(g, Power(c, p - 1))])
Degenerate(b) == ~RFinite(b) \/ ~RLt(RDec("1e-300"), b)

(* One local system: the samples idx at distances dr, polynomial coefficients r, penalty a. *)
\* the weights of all samples
LocalWeights(c, n, idx, dr, bb, r, a) ==
    LET near == {idx[j] : j \in 1..Len(idx)} IN
    Force([i \in 1..n |-> IF i \in near THEN RAdd(a, VDot(r, Powers(c, dr[i], bb))) ELSE a])
\* the weights the library uses in place of squared ones for its variances and traces: without the mixed terms of the polynomial
SquareWeights(c, n, idx, dr, bb, r, a) ==
    LET near == {idx[j] : j \in 1..Len(idx)} IN
    Force([i \in 1..n |-> IF i \in near
        THEN LET g == Powers(c, dr[i], bb) IN
             RAdd(RMul(a, a), RAdd(RMul(RMul(R2, a), VDot(r, g)), VSum([p \in 1..Len(g) |-> Pow2(RMul(r[p], g[p]))])))
        ELSE RMul(a, a)])
\* condition number of a matrix as it is (the solution goes through the square of the matrix)
RawCond(s) == RMul(MNormInf(s.A), MNormInf(s.inv))
ScalOk(s) == s.ok /\ RLe(RawCond(s), RDec("3e4"))
ScalTol(s) == RAdd(RDec("1e-10"), RMul(RDec("1e-13"), Pow2(RawCond(s))))

\* everything about the local systems of foci with distances DR over m neighbours: [free, sols, W, V]
Systems(c, d, DR, m, bb, scale, pen) ==
    LET n == Len(d.y)
        r == PolyCoef(c, scale)
        nn == Force([i \in 1..Len(DR) |-> Nearest(DR[i], m)])
        W == Force([i \in 1..Len(DR) |-> LocalWeights(c, n, nn[i].idx, DR[i], bb, r, pen)])
        V == Force([i \in 1..Len(DR) |-> SquareWeights(c, n, nn[i].idx, DR[i], bb, r, pen)])
        sols == Solve(d.x, d.y, W)
    IN [clear |-> \A i \in 1..Len(DR) : nn[i].clear, ok |-> \A i \in 1..Len(DR) : ScalOk(sols[i]), sols |-> sols, W |-> W, V |-> V]
BetasAt(S) == Force2([i \in 1..Len(S.sols) |-> S.sols[i].beta])
SysTol(S) == VMax([i \in 1..Len(S.sols) |-> ScalTol(S.sols[i])])
\* the library's trace pair and variances: with (A'A)^-1 x_i in the place of A^-1 x_i
TraceVec(S, X, i) == LET A == S.sols[i].inv IN MVec(A, MVec(MT(A), X[i]))
LibTraces(S, X) ==
    << VSum([i \in 1..Len(X) |-> VDot(X[i], TraceVec(S, X, i))]),
       VSum([i \in 1..Len(X) |-> LET t == Force(TraceVec(S, X, i)) IN VDot(t, MVec(Force2(XtWX(X, S.V[i])), t))]) >>

(* The score of scale and penalty.  Cross-validation drops the farthest neighbour, the AIC keeps all. *)
ScalScore(c, d, DR, m, bb, scale, pen) ==
    LET n == Len(d.y)
        S == Systems(c, d, DR, m, bb, scale, pen)
        B == BetasAt(S)
        cv == Get(c, "crit", "CV") = "CV"
        rss == RSSOf(d.x, d.y, B)
        nz == RAdd(RSSNoise(d.x, d.y, B), RMul(SysTol(S), RAdd(Sumsq(d.y), Sumsq(Fitted(d.x, B)))))
        tr == LibTraces(S, d.x)[1]
        gap == RSub(RSub(RInt(n), R2), tr)
    IN IF ~S.clear \/ ~S.ok THEN Score("free", R0, R0)
       ELSE IF cv THEN Score("value", rss, nz)
       ELSE IF ~RLt(RMul(RInt(100), nz), rss) \/ RLt(RAbs(gap), RDec("1e-3")) THEN Score("free", R0, R0)
       ELSE Score("value", AICcOf(n, rss, tr), RMul(RInt(n), RAdd(RMul(R2, RDiv(nz, rss)), RMul(RInt(10), RMul(RAdd(R1, RAbs(tr)), RMul(SysTol(S),
                       RMul(RDiv(RInt(n), gap), RDiv(RInt(n), gap))))))))
\* the same for cross-validation that does leave the sample out
Without(DR, i) == Force([DR[i] EXCEPT ![i] = Big])
LooScore(c, d, DR, m, scale, pen) ==
    LET E == Force([i \in 1..Len(DR) |-> Without(DR, i)])
        bb == BaseBw(c, E, IF m < 50 THEN m ELSE 50)
    IN ScalScore(c, d, E, m, bb, scale, pen)

\* the library's AIC counts n + trS, and its adjusted R2 the same
ScalDiagClauses(X, y, B, t, tol, dg) ==
    LET n == Len(y) N == RInt(n)
        rss == RSSOf(X, y, B) nz == RSSNoise(X, y, B) tss == TSS(y)
        ex == DiagOf(n, rss, tss, t[1], t[2])
        rel == RDiv(nz, rss)
        et == RMul(tol, RAdd(RAdd(R1, RAbs(t[1])), RAbs(t[2])))
        g2 == RSub(RSub(N, R2), t[1])
        g4 == RSub(ex[5], R1)
        amp(g) == LET q == RDiv(RAdd(N, RAdd(RAbs(t[1]), RAbs(t[2]))), g) IN RAdd(R1, RMul(q, q))
        tl(i) == CASE i = 1 -> nz
                   [] i = 2 -> RAdd(RAdd(RDec("1e-9"), et), RMul(RMul(R2, N), rel))
                   [] i = 3 -> RAdd(RMul(RMul(R2, N), rel), RMul(RAdd(RDec("1e-9"), et), RMul(N, amp(g2))))
                   [] i \in {4, 5} -> RMul(RInt(4), RAdd(RDec("1e-9"), et))
                   [] i = 6 -> RAdd(RDec("1e-11"), RDiv(nz, tss))
                   [] i = 7 -> RMul(amp(g4), RAdd(RAdd(RDec("1e-10"), et), RDiv(nz, tss)))
        judged(i) == \/ i \in {1, 4, 5}
                     \/ i = 2 /\ RLt(RMul(RInt(100), nz), rss)
                     \/ i = 3 /\ RLt(RMul(RInt(100), nz), rss) /\ RLt(RDec("1e-3"), RAbs(g2))
                     \/ i \in {6, 7} /\ RLt(RMul(RDec("1e-10"), Sumsq(y)), tss) /\ (i = 6 \/ RLt(RDec("1e-3"), RAbs(g4)))
    IN IF Len(dg) # 7 THEN {"seven diagnostics"}
       ELSE { "diagnostic " \o DiagNames[i] : i \in { j \in 1..7 : judged(j) /\ ~RNear(dg[j], ex[j], RDec("1e-9"), tl(j)) } }

ScalBetaClauses(S, B, k, name) ==
    When(MShape(B, Len(S.sols), k), "one coefficient row per location")
    \cup (IF ~MShape(B, Len(S.sols), k) \/ ~S.clear THEN {} ELSE
          When(\A i \in 1..Len(S.sols) : ScalOk(S.sols[i]) => VClose(B[i], S.sols[i].beta, ScalTol(S.sols[i]), RDec("1e-12")), name))

(* d the data, c the configuration, DR the distances among the samples, m the number of neighbours *)
ScoreSize(c, m) == IF Get(c, "crit", "CV") = "CV" THEN m - 1 ELSE m
Supported(c, n, m) == GetB(c, "ad", "1") /\ Get(c, "kern", "gaussian") \in {"gaussian", "exponential"} /\ m >= 2
ParamClauses(c, d, DR, m, r) ==
    LET ms == ScoreSize(c, m)
        col == IF m > 50 THEN 50 ELSE IF ms < m THEN ms ELSE m
        bb == BaseBw(c, DR, col)
        sc == ScalScore(c, d, DR, ms, bb, M11(r.scale), M11(r.penalty))
        s0 == ScalScore(c, d, DR, ms, bb, R1, RDec("1e-4"))
    IN IF Degenerate(bb) THEN {}
       ELSE When(RFinite(M11(r.scale)) /\ RLe(R0, M11(r.scale)) /\ RFinite(M11(r.penalty)) /\ RLe(R0, M11(r.penalty)), "scale and penalty are not negative")
            \cup When(ScoreOk(sc, M11(r.cv)), "reported score is that of the reported scale and penalty")
            \cup When(s0.kind # "value" \/ RLe(M11(r.cv), RAdd(s0.v, s0.tol)), "scale and penalty score no worse than the starting values")
ScalFit(d, c, e) ==
    LET n == Len(d.y) k == MCols(d.x)
        DR == SelfDist(c, d)
        m == Neighbours(n, RToInt(CfgBw(c)))
        r == e.res
        bb == BaseBw(c, DR, IF m < 50 THEN m ELSE 50)
        S == Systems(c, d, DR, m, bb, M11(r.scale), M11(r.penalty))
        B == r.betas
        t == LibTraces(S, d.x)
    IN IF ~Supported(c, n, m) THEN {}
       ELSE IF e.threw THEN {"a fit does not fail"}
       ELSE When(M11(r.bw) = CfgBw(c), "the bandwidth is the configured one")
            \cup ParamClauses(c, d, DR, m, r)
            \cup (IF Get(c, "crit", "CV") # "CV" THEN {} ELSE
                  LET lo == LooScore(c, d, DR, m - 1, M11(r.scale), M11(r.penalty)) IN
                  When(lo.kind # "value" \/ ScoreOk(lo, M11(r.cv)), "cross-validation leaves the sample out"))
            \cup (IF Degenerate(bb) \/ M11(r.cv) = Big THEN {} ELSE
                  When(r.ret = B, "the returned coefficients are those reported")
                  \cup ScalBetaClauses(S, B, k, "coefficients solve the local systems")
                  \cup (IF ~MShape(B, n, k) \/ ~S.clear \/ ~S.ok THEN {} ELSE
                        ScalDiagClauses(d.x, d.y, B, t, SysTol(S), r.diag[1])))
ScalPredict(d, c, e) ==
    LET n == Len(d.y) k == MCols(d.x)
        DR == SelfDist(c, d)
        m == Neighbours(n, RToInt(CfgBw(c)))
        r == e.res
        PR == DistRows(DistOf(c, r.loc, d.t, d))
        bb == BaseBw(c, PR, IF m < 50 THEN m ELSE 50)
        S == Systems(c, d, PR, m, bb, M11(r.scale), M11(r.penalty))
    IN IF ~Supported(c, n, m) THEN {}
       ELSE IF e.threw THEN When(Degenerate(bb) \/ ~S.ok, "a solvable prediction does not fail")
       ELSE ParamClauses(c, d, DR, m, r)
            \cup (IF Degenerate(bb) \/ M11(r.cv) = Big THEN {} ELSE ScalBetaClauses(S, r.ret, k, "coefficients solve the local systems at the locations"))
ScalClauses(d, c, e) ==
    CASE e.call = "fit" -> ScalFit(d, c, e)
      [] e.call = "predict" -> ScalPredict(d, c, e)
=============================================================================
