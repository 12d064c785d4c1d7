------------------------------ MODULE GwrSpec ------------------------------
(***************************************************************************)
(* Geographically weighted regression and its relatives that solve one     *)
(* weighted system per sample: what a fit, a prediction, a score and an    *)
(* automatic selection must report.  e is a recorded call; d the data set, *)
(* c the configuration.                                                    *)
(***************************************************************************)
EXTENDS TraceLib

Big == RDec("1.7976931348623157e308")
When(c, name) == IF c THEN {} ELSE {name}

(* ---- fit with the bandwidth bw ---- *)
\* the fit of y on X under the weight vectors W; xt is an additional relative tolerance
FitW(X, y, W, c, bw, e, xt) ==
    LET n == Len(y)  k == MCols(X)
        sols == Solve(X, y, W)
        all  == \A i \in 1..n : Judged(sols[i])
        r    == e.res
    IN IF e.threw THEN When(~all, "a solvable fit does not fail")
       ELSE IF \E i \in 1..n : Unsolvable(X, W[i]) THEN {"an unsolvable local system fails with an error"}
       ELSE LET S   == HatMatrix(sols, X, W)
                sh  == TracePair(S)
                tol == RAdd(MaxTol(sols), xt)
                B   == r.betas
                shp == ColVec(r.shat)
                s2  == RDiv(M11(r.diag), RAdd(RSub(RInt(n), RMul(R2, shp[1])), shp[2]))
                se2(i) == LET C == CMat(sols[i], X, W[i]) IN Force([a \in 1..k |-> Sumsq(C[a])])
            IN When(MShape(B, n, k), "one coefficient row per sample")
               \cup When(r.ret = B, "the returned coefficients are those reported")
               \cup (IF ~MShape(B, n, k) THEN {} ELSE
                     When(\A i \in 1..n : Judged(sols[i]) => BetaOkT(sols[i], B[i], xt), "coefficients solve the local systems")
                     \cup DiagClauses(X, y, B, shp, r.diag[1]))
               \cup (IF ~all THEN {} ELSE
                     When(VClose(shp, sh, tol, R0), "hat-matrix trace pair")
                     \cup When(VClose(ColVec(r.q), LeverageDiag(S), RMul(RInt(10), tol), tol), "residual-leverage diagonal")
                     \cup When(\A i \in 1..n : LET v == se2(i) IN
                                 \A a \in 1..k : RNear(r.se[i][a], RSqrt(RMul(s2, v[a])), RMul(RInt(10), tol), RDec("1e-12")),
                               "standard errors")
                     \cup (IF GetB(c, "hat", "1") \/ GetB(c, "storeS", "0")
                           THEN When(MShape(r.S, n, n) /\ MClose(r.S, S, tol, RMul(tol, RDec("1e-3"))), "hat matrix") ELSE {})
                     \cup (IF GetB(c, "storeC", "0")
                           THEN When(Len(r.C) = n * k /\ \A i \in 1..n : LET C == CMat(sols[i], X, W[i]) IN
                                  \A a \in 1..k : VClose(r.C[(i - 1) * k + a], C[a], RMul(RInt(10), tol), RDec("1e-12")), "stored C matrices")
                           ELSE {}))
               \cup When(M11(r.bw) = bw, "the bandwidth is the configured one")

FitClauses(d, c, bw, X, e) ==
    LET w   == WeightOf(c, bw)
        dr  == SelfDist(c, d)
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {} ELSE FitW(X, d.y, WeightsFor(w, dr), c, bw, e, R0)

(* ---- coefficients at arbitrary locations ---- *)
PredictClauses(d, c, bw, e) ==
    LET w   == WeightOf(c, bw)
        loc == e.res.loc
        dr  == DistRows(DistOf(c, loc, d.t, d))
        W   == WeightsFor(w, dr)
        sols == Solve(d.x, d.y, W)
        all  == \A i \in 1..Len(loc) : Judged(sols[i])
        B    == e.res.ret
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {}
       ELSE IF e.threw THEN When(~all, "a solvable prediction does not fail")
       ELSE IF \E i \in 1..Len(loc) : Unsolvable(d.x, W[i]) THEN {"an unsolvable local system fails with an error"}
       ELSE When(MShape(B, Len(loc), MCols(d.x)), "one coefficient row per location")
            \cup (IF ~MShape(B, Len(loc), MCols(d.x)) THEN {} ELSE
                  When(\A i \in 1..Len(loc) : Judged(sols[i]) => BetaOk(sols[i], B[i]), "coefficients are the local regression at the location"))

(* ---- criteria ---- *)
\* scores: [kind |-> "value" | "refused" | "free", v, tol]
Score(kind, v, tol) == [kind |-> kind, v |-> v, tol |-> tol]
CVScore(X, y, W) ==
    LET n == Len(y)
        V == Force([i \in 1..n |-> Force([W[i] EXCEPT ![i] = R0])])
        sols == Solve(X, y, V)
        B == [i \in 1..n |-> sols[i].beta]
    IN IF \E i \in 1..n : Unsolvable(X, V[i]) THEN Score("refused", Big, R0)
       ELSE IF \E i \in 1..n : ~Judged(sols[i]) THEN Score("free", R0, R0)
       \* more than a number can hold
       ELSE IF ~RFinite(RSSOf(X, y, Force2(B))) THEN Score("refused", Big, R0)
       ELSE Score("value", RSSOf(X, y, Force2(B)), RAdd(RSSNoise(X, y, Force2(B)),
                  RMul(MaxTol(sols), RAdd(Sumsq(y), Sumsq(Fitted(X, Force2(B)))))))
AICScore(X, y, W) ==
    LET n == Len(y)
        sols == Solve(X, y, W)
        B == Force2([i \in 1..n |-> sols[i].beta])
        S == HatMatrix(sols, X, W)
        rss == RSSOf(X, y, B)
        nz == RAdd(RSSNoise(X, y, B), RMul(MaxTol(sols), RAdd(Sumsq(y), Sumsq(Fitted(X, B)))))
        tr == MTrace(S)
        gap == RSub(RSub(RInt(n), R2), tr)
    IN IF \E i \in 1..n : Unsolvable(X, W[i]) THEN Score("refused", Big, R0)
       ELSE IF \E i \in 1..n : ~Judged(sols[i]) THEN Score("free", R0, R0)
       \* nothing to explain: the logarithm of a zero sum of squares is no number
       ELSE IF VMaxAbs(y) = R0 \/ ~RFinite(rss) THEN Score("refused", Big, R0)
       ELSE IF ~RLt(RMul(RInt(100), nz), rss) \/ RLt(RAbs(gap), RDec("1e-5")) THEN Score("free", R0, R0)
       ELSE Score("value", AICcOf(n, rss, tr),
                  RMul(RInt(n), RAdd(RMul(R2, RDiv(nz, rss)), RMul(RInt(10), RMul(MaxTol(sols),
                       RMul(RDiv(RInt(n), gap), RDiv(RInt(n), gap)))))))
ScoreOk(sc, v) ==
    CASE sc.kind = "free" -> TRUE
      [] sc.kind = "refused" -> v = Big
      [] sc.kind = "value" -> RNear(v, sc.v, RDec("1e-9"), sc.tol)
CritClauses(d, c, e) ==
    LET w  == WeightOf(c, GetR(e.arg, "cbw", "1"))
        dr == SelfDist(c, d)
        W  == WeightsFor(w, dr)
        sc == IF Get(c, "crit", "CV") = "AIC" THEN AICScore(d.x, d.y, W) ELSE CVScore(d.x, d.y, W)
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN {}
       ELSE When(~e.threw, "scoring does not fail")
            \cup (IF e.threw THEN {} ELSE
                  When(ScoreOk(sc, M11(e.res.score)), "score of a bandwidth (" \o sc.kind \o ")")
                  \cup When(M11(e.res.bw) = CfgBw(c) /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged"))
\* a variable subset is scored by the corrected AIC of the model with these variables under an unlimited bandwidth
VarCols(c, v) == IF GetB(c, "icpt", "1") THEN <<1>> \o [i \in 1..Len(v) |-> v[i] + 1] ELSE [i \in 1..Len(v) |-> v[i] + 1]
VCritClauses(d, c, e) ==
    LET vs == e.res.vs
        X  == MSelCols(d.x, VarCols(c, [i \in 1..Len(vs[1]) |-> RToInt(vs[1][i])]))
        n  == Len(d.y)
        W  == Force([i \in 1..n |-> Force(VConst(n, R1))])
        sc == AICScore(Force2(X), d.y, W)
    IN When(~e.threw, "scoring does not fail")
       \cup (IF e.threw THEN {} ELSE
             When(ScoreOk(sc, M11(e.res.score)), "score of a variable subset (" \o sc.kind \o ")")
             \cup When(M11(e.res.bw) = CfgBw(c) /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged"))

(* ---- a fit with automatic selections: every recorded score is right, and the model is fitted with what was selected ---- *)
VarRow(row) == LET S == {j \in 2..Len(row) : row[j] # RInt(-1)} IN [j \in 1..Cardinality(S) |-> RToInt(row[j + 1])]
AutoVars(d, c, r) == IF GetB(c, "avar", "0") THEN VarRow(<<R0>> \o r.vars[1]) ELSE << >>
AutoX(d, c, r) == IF GetB(c, "avar", "0") THEN Force2(MSelCols(d.x, VarCols(c, AutoVars(d, c, r)))) ELSE d.x
AutoBw(c, r) == IF GetB(c, "auto", "0") THEN M11(r.bw) ELSE CfgBw(c)
\* Sc(X, bw) is the specified score of a bandwidth for the variables of X
BwListClauses(c, X, r, Sc(_, _)) ==
    LET bw == AutoBw(c, r) IN
    IF ~GetB(c, "auto", "0") THEN {} ELSE
             When(\A i \in 1..Len(r.bwlist) : ScoreOk(Sc(X, r.bwlist[i][1]), r.bwlist[i][2]), "recorded scores of bandwidths")
             \cup When((M11(r.bwad) = R1) = GetB(c, "ad", "1"), "selection keeps the bandwidth's mode")
             \cup When(~Has(c, "lo") \/ (RLe(GetR(c, "lo", "0"), bw) /\ RLe(bw, GetR(c, "up", "1e9"))), "selected bandwidth in range")
             \cup When(\E i \in 1..Len(r.bwlist) : r.bwlist[i][1] = bw /\ \A j \in 1..Len(r.bwlist) : RLe(r.bwlist[i][2], r.bwlist[j][2]),
                       "selected bandwidth has the best recorded score")
VarListClauses(d, c, r) ==
    LET n    == Len(d.y)
        ones == Force([i \in 1..n |-> Force(VConst(n, R1))])
        vs   == AutoVars(d, c, r)
    IN IF ~GetB(c, "avar", "0") THEN {} ELSE
             When(\A i \in 1..Len(r.varlist) :
                    ScoreOk(AICScore(Force2(MSelCols(d.x, VarCols(c, VarRow(r.varlist[i])))), d.y, ones), r.varlist[i][1]),
                  "recorded scores of variable subsets")
             \cup When(\A i \in 1..Len(vs) : vs[i] < MCols(d.x) /\ ~(GetB(c, "icpt", "1") /\ vs[i] = 0), "selected variables are candidates")
BwScore(d, c, X, b) ==
    LET w == WeightOf(c, b)
        dr == SelfDist(c, d)
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) THEN Score("free", R0, R0)
       ELSE LET W == WeightsFor(w, dr) IN IF Get(c, "crit", "CV") = "AIC" THEN AICScore(X, d.y, W) ELSE CVScore(X, d.y, W)
AutoClauses(d, c, e) ==
    IF e.threw THEN {}
    ELSE LET Sc(X, b) == BwScore(d, c, X, b) IN VarListClauses(d, c, e.res) \cup BwListClauses(c, AutoX(d, c, e.res), e.res, Sc)

=============================================================================
