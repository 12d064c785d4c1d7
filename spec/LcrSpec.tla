------------------------------ MODULE LcrSpec ------------------------------
(***************************************************************************)
(* GWR with locally compensated ridge terms.                               *)
(***************************************************************************)
EXTENDS GwrSpec

\* the weighted design with columns of unit length, and the squares of its singular values, largest first
UnitCols(X, w) ==
    LET A == Force2([i \in 1..Len(X) |-> Force(VScale(w[i], X[i]))])
        len == Force([j \in 1..MCols(X) |-> RSqrt(Sumsq(MCol(A, j)))])
    IN Force2([i \in 1..Len(X) |-> Force([j \in 1..MCols(X) |-> RDiv(A[i][j], len[j])])])
\* the two extreme singular values; the smallest one is known to about 1e-8 this way
Extremes(X, w) ==
    LET U == UnitCols(X, w)
        k == MCols(X)
        ev == EigSym(Force2(MMul(MT(U), U)))
    IN [hi |-> RSqrt(RMax(R0, ev[1])), lo |-> RSqrt(RMax(R0, ev[k]))]

\* the ridge of one location, with a bound on its error
Ridge(c, X, w) ==
    LET base == GetR(c, "ridge", "0")
        T == GetR(c, "cn", "30")
        s == Extremes(X, w)
        cn == RDiv(s.hi, s.lo)
        err == RDiv(RDec("1e-14"), s.lo)        \* of the smallest singular value
    IN IF ~GetB(c, "adj", "0") THEN [v |-> base, err |-> R0, ok |-> TRUE]
       ELSE IF ~RFinite(s.hi) \/ ~RLt(RDec("1e-6"), s.lo) \/ RNear(cn, T, RDec("1e-6"), R0) THEN [v |-> R0, err |-> R0, ok |-> FALSE]
       ELSE IF RLt(T, cn) THEN [v |-> RDiv(RSub(s.hi, RMul(T, s.lo)), RSub(T, R1)), err |-> RDiv(RMul(T, err), RSub(T, R1)), ok |-> TRUE]
       ELSE [v |-> base, err |-> R0, ok |-> TRUE]

\* sample standard deviations of the columns, 1 for the first
ColSd(X) ==
    LET n == Len(X) IN
    Force([j \in 1..MCols(X) |-> IF j = 1 THEN R1
        ELSE LET v == Force(MCol(X, j)) m == VMean(v) IN RSqrt(RDiv(Sumsq(VShift(RNeg(m), v)), RInt(n - 1)))])
Scaled(X, sd) == Force2([i \in 1..Len(X) |-> Force(VDiv(X[i], sd))])
\* local ridge solutions: coefficients of the standardised design, brought back to the original scale
RidgeSols(c, X, y, W) ==
    LET sd == ColSd(X)
        Z  == Scaled(X, sd)
    IN Force([i \in 1..Len(W) |->
         IF \E j \in 1..Len(X) : ~RFinite(W[i][j]) THEN [ok |-> FALSE, free |-> TRUE]
         \* the condition number of a design with a vanishing column is undefined
         ELSE IF \E a \in 1..MCols(X) : ~RLt(RDec("1e-100"), VMaxAbs(VMul(W[i], MCol(X, a)))) THEN [ok |-> FALSE, free |-> TRUE]
         ELSE LET g == Ridge(c, X, W[i]) IN
              IF ~g.ok THEN [ok |-> FALSE, free |-> TRUE]
              ELSE LET s == RidgeSolve(Z, W[i], y, g.v)
                       s2 == IF g.err = R0 THEN s ELSE RidgeSolve(Z, W[i], y, RAdd(g.v, RMul(RInt(10), g.err)))
                   IN IF ~s.ok \/ ~s2.ok THEN [ok |-> FALSE, free |-> TRUE]
                      ELSE [ok |-> TRUE, free |-> ~RLe(s.cond, CondLimit), sol |-> s, sd |-> sd,
                            beta |-> Force(VDiv(s.beta, sd)),
                            xt |-> RDiv(VMaxAbs(VSub(VMul(ScaleOf(s.A), s.beta), VMul(ScaleOf(s.A), s2.beta))),
                                        RMax(VMaxAbs(VMul(ScaleOf(s.A), s.beta)), RDec("1e-300")))]])
RidgeBetaOk(q, b) == BetaOkT(q.sol, Force(VMul(b, q.sd)), q.xt)

\* AIC and its relatives as this model defines them (n samples, trace pair of the unpenalised local systems)
LcrDiag(n, rss, tss, trS, trStS) ==
    LET N == RInt(n)
        enp == RSub(RMul(R2, trS), trStS)
        edf == RSub(N, enp)
        ls2 == RLog(RMul(Pi2, RDiv(rss, edf)))
        r2 == RSub(R1, RDiv(rss, tss))
    IN << rss,
          RAdd(RMul(N, RAdd(ls2, R1)), RMul(R2, RAdd(enp, R1))),
          RAdd(RMul(N, ls2), RMul(N, RDiv(RAdd(R1, RDiv(enp, N)), RSub(R1, RDiv(RAdd(enp, R2), N))))),
          enp, edf, r2,
          RSub(R1, RDiv(RMul(RSub(R1, r2), RSub(N, R1)), edf)) >>
LcrDiagClauses(X, y, B, sh, tol, dg) ==
    LET n == Len(y) N == RInt(n)
        rss == RSSOf(X, y, B)  nz == RSSNoise(X, y, B)  tss == TSS(y)
        ex == LcrDiag(n, rss, tss, sh[1], sh[2])
        rel == RAdd(RDiv(nz, rss), RDiv(RMul(N, tol), RAbs(ex[5])))
        a3 == RAdd(R1, RAbs(RDiv(N, RSub(RSub(N, R2), ex[4]))))
        a5 == RAdd(R1, RAbs(RDiv(N, ex[5])))
        t(i) == CASE i = 1 -> nz
                  [] i = 2 -> RMul(RMul(RInt(4), N), RAdd(rel, tol))
                  [] i = 3 -> RMul(RMul(RInt(4), N), RAdd(rel, RMul(RMul(a3, a3), RAdd(tol, RDec("1e-12")))))
                  [] i \in {4, 5} -> RMul(RMul(RInt(4), N), RAdd(tol, RDec("1e-13")))
                  [] i = 6 -> RAdd(RDec("1e-11"), RDiv(nz, tss))
                  [] i = 7 -> RMul(RMul(a5, a5), RAdd(RAdd(tol, RDec("1e-10")), RDiv(nz, tss)))
        judged(i) == \/ i \in {1, 4, 5}
                     \/ i = 2 /\ RLt(RMul(RInt(100), nz), rss) /\ RLt(RDec("1e-3"), RAbs(ex[5]))
                     \* the correction has a pole where n = ENP + 2
                     \/ i = 3 /\ RLt(RMul(RInt(100), nz), rss) /\ RLt(RDec("1e-3"), RAbs(ex[5])) /\ RLt(RDec("1e-3"), RAbs(RSub(RSub(N, R2), ex[4])))
                     \/ i \in {6, 7} /\ RLt(RMul(RDec("1e-10"), Sumsq(y)), tss) /\ RLt(RDec("1e-3"), RAbs(ex[5]))
    IN IF Len(dg) # 7 THEN {"seven diagnostics"}
       ELSE { "diagnostic " \o DiagNames[i] : i \in { j \in 1..7 : judged(j) /\ ~RNear(dg[j], ex[j], RDec("1e-9"), t(j)) } }

LcrFit(d, c, bw, e) ==
    LET w == WeightOf(c, bw)  dr == SelfDist(c, d)  X == d.x  y == d.y  n == Len(y)  k == MCols(X)
        W == WeightsFor(w, dr)
        plain == Solve(X, y, W)
        qs == RidgeSols(c, X, y, W)
        all == (\A i \in 1..n : Judged(plain[i])) /\ (\A i \in 1..n : qs[i].ok /\ ~qs[i].free)
        r == e.res
        B == r.betas
    IN IF k < 2 \/ ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {}
       ELSE IF e.threw THEN When(~all, "a solvable fit does not fail")
       ELSE IF \E i \in 1..n : Support(W[i]) = {} THEN {"an unsolvable local system fails with an error"}
       ELSE When(MShape(B, n, k), "one coefficient row per sample")
            \cup When(r.ret = B, "the returned coefficients are those reported")
            \cup (IF ~MShape(B, n, k) THEN {} ELSE
                  When(\A i \in 1..n : (qs[i].ok /\ ~qs[i].free) => RidgeBetaOk(qs[i], B[i]), "coefficients are the local ridge regression")
                  \cup (IF ~\A i \in 1..n : Judged(plain[i]) THEN {} ELSE
                        LcrDiagClauses(X, y, B, TracePair(HatMatrix(plain, X, W)), MaxTol(plain), r.diag[1])))
            \cup When(M11(r.bw) = bw, "the bandwidth is the configured one")

LcrPredict(d, c, bw, e) ==
    LET w == WeightOf(c, bw)  loc == e.res.loc  dr == DistRows(DistOf(c, loc, d.t, d))
        W == WeightsFor(w, dr)  n == Len(loc)  k == MCols(d.x)
        qs == RidgeSols(c, d.x, d.y, W)
        B == e.res.ret
    IN IF k < 2 \/ ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {}
       ELSE IF e.threw THEN When(~\A i \in 1..n : qs[i].ok /\ ~qs[i].free, "a solvable prediction does not fail")
       ELSE IF \E i \in 1..n : Support(W[i]) = {} THEN {"an unsolvable local system fails with an error"}
       ELSE When(MShape(B, n, k), "one coefficient row per location")
            \cup (IF ~MShape(B, n, k) THEN {} ELSE
                  When(\A i \in 1..n : (qs[i].ok /\ ~qs[i].free) => RidgeBetaOk(qs[i], B[i]), "coefficients are the local regression at the location"))

LcrScore(d, c, b) ==
    LET w == WeightOf(c, b)  dr == SelfDist(c, d)  n == Len(d.y)  X == d.x  y == d.y
        W == WeightsFor(w, dr)
        V == Force([i \in 1..n |-> Force([W[i] EXCEPT ![i] = R0])])
        qs == RidgeSols(c, X, y, V)
        B == Force2([i \in 1..n |-> qs[i].beta])
        tol == VMax([i \in 1..n |-> RAdd(SolTol(qs[i].sol), qs[i].xt)])
    IN IF MCols(X) < 2 \/ ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN Score("free", R0, R0)
       ELSE IF \E i \in 1..n : Support(V[i]) = {} THEN Score("refused", Big, R0)
       ELSE IF \E i \in 1..n : ~qs[i].ok \/ qs[i].free THEN Score("free", R0, R0)
       ELSE IF ~RFinite(RSSOf(X, y, B)) THEN Score("refused", Big, R0)
       ELSE Score("value", RSSOf(X, y, B), RAdd(RSSNoise(X, y, B), RMul(tol, RAdd(Sumsq(y), Sumsq(Fitted(X, B))))))
LcrCrit(d, c, e) ==
    LET sc == LcrScore(d, c, GetR(e.arg, "cbw", "1")) IN
    IF MCols(d.x) < 2 THEN {}
    ELSE When(~e.threw, "scoring does not fail")
         \cup (IF e.threw THEN {} ELSE
               When(ScoreOk(sc, M11(e.res.score)), "score of a bandwidth (" \o sc.kind \o ")")
               \cup When(M11(e.res.bw) = CfgBw(c) /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged"))
LcrClauses(d, c, e) ==
    CASE e.call = "fit" /\ GetB(c, "auto", "0") ->
            (IF e.threw THEN {} ELSE
             LET Sc(X, b) == LcrScore(d, c, b) IN BwListClauses(c, d.x, e.res, Sc) \cup LcrFit(d, c, M11(e.res.bw), e))
      [] e.call = "fit" -> LcrFit(d, c, CfgBw(c), e)
      [] e.call = "predict" -> LcrPredict(d, c, CfgBw(c), e)
      [] e.call = "crit" -> LcrCrit(d, c, e)
=============================================================================
