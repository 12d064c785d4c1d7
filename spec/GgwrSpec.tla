------------------------------ MODULE GgwrSpec ------------------------------
(***************************************************************************)
(* Generalised GWR: iteratively re-weighted local regression for counts    *)
(* and 0/1 responses, with the global model it is compared to.             *)
(***************************************************************************)
EXTENDS GwrSpec

Pois(c) == Get(c, "fam", "poisson") # "binomial"
Link(c, mu) == IF Pois(c) THEN RLog(mu) ELSE RLog(RDiv(mu, RSub(R1, mu)))
Mean(c, eta) == LET e == RExp(eta) IN IF Pois(c) THEN e ELSE RDiv(e, RAdd(R1, e))
Variance(c, mu) == IF Pois(c) THEN mu ELSE RMul(mu, RSub(R1, mu))
VMap1(Op(_), v) == Force([i \in 1..Len(v) |-> Op(v[i])])
\* the working response: eta + (y - mu) / (d mu / d eta)
Working(c, y, eta, mu) == Force([i \in 1..Len(y) |-> RAdd(eta[i], RDiv(RSub(y[i], mu[i]), Variance(c, mu[i])))])
LogLik(c, y, mu) == VSum([i \in 1..Len(y) |->
    IF Pois(c) THEN RSub(RSub(RMul(y[i], RLog(mu[i])), mu[i]), RLgamma(RAdd(y[i], R1)))
    ELSE RAdd(RMul(RSub(R1, y[i]), RLog(RSub(R1, mu[i]))), RMul(y[i], RLog(mu[i])))])
YLog(y, m) == IF y = R0 THEN R0 ELSE RMul(y, RLog(RDiv(y, m)))
Deviance(c, y, mu) == VSum([i \in 1..Len(y) |-> RMul(R2,
    IF Pois(c) THEN RSub(YLog(y[i], mu[i]), RSub(y[i], mu[i]))
    ELSE RAdd(YLog(y[i], mu[i]), YLog(RSub(R1, y[i]), RSub(R1, mu[i]))))])
\* means that keep the re-weighting away from its limits, where rounding decides
Tame(c, mu) == \A i \in 1..Len(mu) : RFinite(mu[i]) /\ RLe(RDec("1e-6"), Variance(c, mu[i])) /\ RLe(mu[i], RDec("1e6"))

(* ---- the local model ---- *)
WithWeights(W, w2) == Force([i \in 1..Len(W) |-> Force(VMul(W[i], w2))])
\* [ok | refused | free, eta, mu, w2 (working weights), z (working response), ll]
RECURSIVE Reweight(_, _, _, _, _)
Reweight(c, X, y, W, s) ==
    IF s.it >= GetI(c, "maxit", "20") THEN s
    ELSE LET z == Working(c, y, s.eta, s.mu)
             V == WithWeights(W, s.w2)
             sols == Solve(X, z, V)
             n == Len(y)
         IN IF \E i \in 1..n : Support(V[i]) = {} THEN [s EXCEPT !.kind = "refused"]
            ELSE IF \E i \in 1..n : ~Judged(sols[i]) THEN [s EXCEPT !.kind = "free"]
            ELSE LET B == Force2([i \in 1..n |-> sols[i].beta])
                     eta == Fitted(X, B)
                     mu == VMap1(LAMBDA v : Mean(c, v), eta)
                     ll == LogLik(c, y, mu)
                     diff == RAbs(RDiv(RSub(s.ll, ll), ll))
                     tol == GetR(c, "tol", "1e-5")
                     nxt == [s EXCEPT !.z = z, !.eta = eta, !.mu = mu, !.ll = ll, !.it = s.it + 1, !.st = RMax(s.st, MaxTol(sols))]
                 IN IF ~Tame(c, mu) \/ ~RFinite(diff) \/ RNear(diff, tol, RDec("1e-3"), RDec("1e-9")) THEN [s EXCEPT !.kind = "free"]
                    ELSE IF RLt(diff, tol) THEN nxt
                    ELSE Reweight(c, X, y, W, [nxt EXCEPT !.w2 = VMap1(LAMBDA v : Variance(c, v), mu)])
Start(c, y) ==
    LET n == Len(y)
        mu == IF Pois(c) THEN Force(VShift(RDec("0.1"), y)) ELSE Force(VConst(n, RDec("0.5")))
    IN [kind |-> "ok", mu |-> mu, eta |-> VMap1(LAMBDA v : Link(c, v), mu), w2 |-> Force(VConst(n, R1)), z |-> y, ll |-> R0, it |-> 0, st |-> R0]
Local(c, X, y, W) == Reweight(c, X, y, W, Start(c, y))

(* ---- the global model ---- *)
RECURSIVE Glm(_, _, _, _)
Glm(c, X, y, s) ==
    LET w == VMap1(LAMBDA v : Variance(c, v), s.mu)
        sol == LocalSolve(X, w, Working(c, y, s.eta, s.mu))
        eta == MVec(X, sol.beta)
        mu == VMap1(LAMBDA v : Mean(c, v), eta)
        dev == Deviance(c, y, mu)
    IN IF ~Judged(sol) \/ ~Tame(c, mu) \/ ~RFinite(dev) THEN [ok |-> FALSE, dev |-> R0]
       ELSE IF RLt(RDiv(RAbs(RSub(dev, s.dev)), RAdd(RDec("0.1"), RAbs(dev))), RDec("1e-8")) \/ s.it = 24 THEN [ok |-> s.it < 24, dev |-> dev]
       ELSE Glm(c, X, y, [mu |-> mu, eta |-> eta, dev |-> dev, it |-> s.it + 1])
GlobalModel(c, X, y) ==
    LET mu == IF Pois(c) THEN Force(VShift(RDec("0.1"), y)) ELSE VMap1(LAMBDA v : RDiv(RAdd(v, RDec("0.5")), R2), y)
    IN Glm(c, X, y, [mu |-> mu, eta |-> VMap1(LAMBDA v : Link(c, v), mu), dev |-> Deviance(c, y, mu), it |-> 0])
NullDev(c, y) == Deviance(c, y, Force(VConst(Len(y), VMean(y))))
GlmClauses(c, X, y, g) ==
    LET s == GlobalModel(c, X, y)
        n == Len(y) k == MCols(X) N == RInt(n) P == RInt(k)
        aic == RAdd(s.dev, RMul(R2, P))
        \* the deviance is determined to its convergence tolerance
        t == RAdd(RDec("1e-6"), RMul(RDec("1e-9"), RAbs(s.dev)))
        nd == NullDev(c, y)
    IN IF ~s.ok \/ ~RLt(RDec("1e-9"), nd) THEN {}
       ELSE When(RNear(g[1], nd, RDec("1e-9"), RDec("1e-9")), "null deviance")
            \cup When(RNear(g[2], s.dev, RDec("1e-9"), t), "deviance of the global model")
            \cup When(RNear(g[3], aic, RDec("1e-9"), t), "AIC of the global model")
            \cup When(n = k + 1 \/ RNear(g[4], RAdd(aic, RDiv(RMul(RMul(R2, P), RAdd(P, R1)), RSub(RSub(N, P), R1))), RDec("1e-9"), t), "AICc of the global model")
            \cup When(RNear(g[5], RSub(R1, RDiv(s.dev, nd)), RDec("1e-9"), RDiv(t, nd)), "pseudo R2 of the global model")

(* ---- a fit under the weights W ---- *)
GgwrFitW(c, X, y, W, e) ==
    LET n == Len(y) k == MCols(X) N == RInt(n)
        s == Local(c, X, y, W)
        V == WithWeights(W, s.w2)
        sols == Solve(X, s.z, V)
        r == e.res
        B == r.betas
        glob == GlobalModel(c, X, y)
        xt == RAdd(RDec("1e-8"), RMul(RInt(100), s.st))
        S == HatMatrix(sols, X, V)
        sh == TracePair(S)
        mu == IF Pois(c) THEN s.mu ELSE VMap1(LAMBDA v : Mean(c, v), Fitted(X, B))
        dev == Deviance(c, y, mu)
        t == RMul(xt, RAdd(N, RAdd(Sumsq(s.eta), RAbs(dev))))
        g == r.gdiag[1]
        aic == RAdd(dev, RMul(R2, sh[1]))
        gap == RSub(RSub(N, sh[1]), R1)
        corr == RDiv(RMul(RMul(R2, sh[1]), RAdd(sh[1], R1)), gap)
        amp == RAdd(R1, RMul(RDiv(N, gap), RDiv(N, gap)))
        nd == NullDev(c, y)
    IN IF s.kind = "refused" THEN When(e.threw, "an unsolvable local system fails with an error")
       ELSE IF s.kind = "free" \/ \E i \in 1..n : ~Judged(sols[i]) THEN {}
       ELSE IF e.threw THEN When(~glob.ok, "a solvable fit does not fail")
       ELSE When(MShape(B, n, k), "one coefficient row per sample")
            \cup When(r.ret = B, "the returned coefficients are those reported")
            \cup (IF ~MShape(B, n, k) THEN {} ELSE
                  When(\A i \in 1..n : BetaOkT(sols[i], B[i], xt), "coefficients solve the re-weighted local systems")
                  \cup (IF ~GetB(c, "hat", "1") THEN {} ELSE
                        When(VClose(ColVec(r.shat), sh, xt, R0), "hat-matrix trace pair")
                        \cup When(MShape(r.se, n, k) /\ \A i \in 1..n : LET C == CMat(sols[i], X, V[i]) IN
                                \A a \in 1..k : RNear(r.se[i][a], RSqrt(VSum([j \in 1..n |-> RDiv(RMul(C[a][j], C[a][j]), s.w2[j])])), RMul(RInt(100), xt), RDec("1e-12")),
                                "standard errors")
                        \cup When(RNear(g[1], dev, RDec("1e-8"), t), "deviance")
                        \cup When(RNear(g[2], aic, RDec("1e-8"), t), "AIC")
                        \cup When(RLe(RAbs(gap), RDec("1e-3")) \/ RNear(g[3], RAdd(aic, corr), RDec("1e-8"), RMul(t, amp)), "AICc")
                        \cup When(~RLt(RDec("1e-9"), nd) \/ RNear(g[4], RSub(R1, RDiv(dev, nd)), RDec("1e-8"), RDiv(t, nd)), "pseudo R2")))
            \cup GlmClauses(c, X, y, r.glm[1])

(* ---- scores ---- *)
GgwrScore(d, c, b) ==
    LET n == Len(d.y) N == RInt(n)
        w == WeightOf(c, b)
        dr == SelfDist(c, d)
        W == WeightsFor(w, dr)
        cv == Get(c, "crit", "AIC") = "CV"
        V == IF cv THEN Force([i \in 1..n |-> Force([W[i] EXCEPT ![i] = R0])]) ELSE W
        s == Local(c, d.x, d.y, V)
        U == WithWeights(V, s.w2)
        sols == Solve(d.x, s.z, U)
        B == Force2([i \in 1..n |-> sols[i].beta])
        mu == VMap1(LAMBDA v : Mean(c, v), Fitted(d.x, B))
        res == VSub(d.y, mu)
        xt == RAdd(RDec("1e-8"), RMul(RInt(100), s.st))
        tr == MTrace(HatMatrix(sols, d.x, U))
        gap == RSub(RSub(N, tr), R1)
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN Score("free", R0, R0)
       ELSE IF s.kind = "refused" THEN Score("refused", Big, R0)
       ELSE IF s.kind = "free" \/ (\E i \in 1..n : ~Judged(sols[i])) \/ ~VFinite(mu) THEN Score("free", R0, R0)
       ELSE IF cv THEN Score("value", Sumsq(res), RMul(xt, RAdd(RAdd(Sumsq(d.y), Sumsq(mu)), RMul(Sumsq(mu), Sumsq(Fitted(d.x, B))))))
       ELSE IF RLe(RAbs(gap), RDec("1e-3")) THEN Score("free", R0, R0)
       ELSE Score("value", RAdd(RAdd(RMul(RInt(-2), s.ll), RMul(R2, tr)), RDiv(RMul(RMul(R2, tr), RAdd(tr, R1)), gap)),
                  RMul(xt, RAdd(RAdd(N, Sumsq(s.mu)), RMul(N, RMul(RDiv(N, gap), RDiv(N, gap))))))

GgwrPredict(d, c, e) ==
    LET w == WeightOf(c, CfgBw(c))
        dr == SelfDist(c, d)
        loc == e.res.loc
        pr == DistRows(DistOf(c, loc, d.t, d))
        s == Local(c, d.x, d.y, WeightsFor(w, dr))
        V == WithWeights(WeightsFor(w, pr), s.w2)
        sols == Solve(d.x, s.z, V)
        B == e.res.ret
        xt == RAdd(RDec("1e-8"), RMul(RInt(100), s.st))
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) \/ ~UsableAll(w, pr) \/ ~EdgeSafe(w, pr) \/ s.kind = "free" THEN {}
       ELSE IF s.kind = "refused" \/ \E i \in 1..Len(loc) : Support(V[i]) = {} THEN When(e.threw, "an unsolvable local system fails with an error")
       ELSE IF \E i \in 1..Len(loc) : ~Judged(sols[i]) THEN {}
       ELSE IF e.threw THEN {"a solvable prediction does not fail"}
       ELSE When(MShape(B, Len(loc), MCols(d.x)), "one coefficient row per location")
            \cup (IF ~MShape(B, Len(loc), MCols(d.x)) THEN {} ELSE
                  When(\A i \in 1..Len(loc) : BetaOkT(sols[i], B[i], xt), "coefficients are the re-weighted local regression at the location"))

GgwrClauses(d, c, e) ==
    LET fit(bw) == LET w == WeightOf(c, bw) dr == SelfDist(c, d) IN
                   IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {} ELSE GgwrFitW(c, d.x, d.y, WeightsFor(w, dr), e)
        Sc(X, b) == GgwrScore(d, c, b)
    IN CASE e.call = "fit" /\ GetB(c, "auto", "0") ->
              IF e.threw THEN {} ELSE BwListClauses(c, d.x, e.res, Sc) \cup fit(M11(e.res.bw))
         [] e.call = "fit" -> fit(CfgBw(c)) \cup (IF e.threw THEN {} ELSE When(M11(e.res.bw) = CfgBw(c), "the bandwidth is the configured one"))
         [] e.call = "predict" -> GgwrPredict(d, c, e)
         [] e.call = "crit" -> IF e.threw THEN {"scoring does not fail"} ELSE
               LET sc == GgwrScore(d, c, GetR(e.arg, "cbw", "1")) IN
               When(ScoreOk(sc, M11(e.res.score)), "score of a bandwidth (" \o sc.kind \o ")")
               \cup When(M11(e.res.bw) = CfgBw(c) /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged")
=============================================================================
