------------------------------ MODULE GwdrSpec ------------------------------
(***************************************************************************)
(* Density regression: one kernel per coordinate dimension, the weight of  *)
(* a sample is their product.                                              *)
(***************************************************************************)
EXTENDS GwrSpec

ListOf(c, k) == RSplit(c[k])
NumsOf(c, k) == LET p == ListOf(c, k) IN Force([i \in 1..Len(p) |-> RDec(p[i])])
\* the m-th entry of a list that is repeated when it is too short
At(q, m) == q[((m - 1) % Len(q)) + 1]
DimWeight(c, bws, m) == [k |-> At(ListOf(c, "kerns"), m), ad |-> At(ListOf(c, "ads"), m) = "1", bw |-> bws[m]]
DimDist(F, P, m) == Force([f \in 1..Len(F) |-> Force([j \in 1..Len(P) |-> RAbs(RSub(P[j][m], F[f][m]))])])

\* [ok, W]: the product weights of foci F over points P
DimWeights(c, bws, F, P) ==
    LET dims == 1..MCols(P)
        w == [m \in dims |-> DimWeight(c, bws, m)]
        dr == [m \in dims |-> DimDist(F, P, m)]
    IN IF \E m \in dims : ~UsableAll(w[m], dr[m]) \/ ~EdgeSafe(w[m], dr[m]) THEN [ok |-> FALSE]
       ELSE LET V == Force([m \in dims |-> WeightsFor(w[m], dr[m])])
                RECURSIVE Prod(_, _)
                Prod(f, m) == IF m = 1 THEN V[1][f] ELSE Force(VMul(Prod(f, m - 1), V[m][f]))
                W == Force([f \in 1..Len(F) |-> Prod(f, MCols(P))])
            \* products in the denormal range have lost their precision
            IN IF \E f \in 1..Len(F) : \E j \in 1..Len(P) : W[f][j] # R0 /\ RLt(W[f][j], RDec("1e-250")) THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, W |-> W]

\* this model inverts without a positive-definiteness test: only a system without any sample is certain to be refused
NoSample(W, i, own) == \A j \in 1..Len(W[i]) : (own /\ j = i) \/ W[i][j] = R0
GwdrScore(d, c, X, bws) ==
    IF \E m \in 1..Len(bws) : At(ListOf(c, "ads"), m) = "1" /\ RLt(bws[m], R1) THEN Score("free", R0, R0)
    ELSE LET q == DimWeights(c, bws, d.coords, d.coords) IN
         IF ~q.ok THEN Score("free", R0, R0)
         ELSE LET cv == Get(c, "crit", "CV") # "AIC"
                  sc == IF cv THEN CVScore(X, d.y, q.W) ELSE AICScore(X, d.y, q.W)
              IN IF sc.kind = "refused" /\ ~\E i \in 1..Len(q.W) : NoSample(q.W, i, cv) THEN Score("free", R0, R0) ELSE sc
\* variables are scored with the configured weights, or without weights when the bandwidths are still to be found
GwdrVarScore(d, c, X) ==
    LET n == Len(d.y)
        bws == NumsOf(c, "bws")
    IN IF GetB(c, "auto", "0") \/ \E m \in 1..Len(bws) : bws[m] = R0
       THEN AICScore(X, d.y, Force([i \in 1..n |-> Force(VConst(n, R1))]))
       ELSE LET q == DimWeights(c, bws, d.coords, d.coords) IN
            IF ~q.ok THEN Score("free", R0, R0) ELSE AICScore(X, d.y, q.W)

\* where the optimisation starts: configured bandwidths outside of the sensible range are replaced
StartBws(d, c, X) ==
    LET n == Len(d.y)
        bws == NumsOf(c, "bws")
        dd(m) == DimDist(d.coords, d.coords, m)
        lo(m) == IF At(ListOf(c, "ads"), m) = "1" THEN RInt(MCols(X) + 1) ELSE VMin([f \in 1..n |-> VMin(dd(m)[f])])
        up(m) == IF At(ListOf(c, "ads"), m) = "1" THEN RInt(n) ELSE VMax([f \in 1..n |-> VMax(dd(m)[f])])
    IN Force([m \in 1..Len(bws) |-> IF RLe(bws[m], lo(m)) \/ RLe(up(m), bws[m]) THEN RMul(up(m), RDec("0.618")) ELSE bws[m]])
\* the evaluated bandwidths are reported with six decimals
Reported(u, v) == RNear(u, v, RDec("1e-12"), RDec("0.6e-6"))
EvalBws(row) == SubSeq(row, 1, Len(row) - 1)
EvalScore(row) == row[Len(row)]
OptClauses(d, c, X, r, ev) ==
    LET dims == MCols(d.coords)
        start == StartBws(d, c, X)
        final == r.bws[1]
        ad(m) == At(ListOf(c, "ads"), m) = "1"
        Rounds(row) == \A m \in 1..dims : IF ad(m) THEN RFloor(final[m]) = final[m] /\ RLe(RAbs(RSub(row[m], final[m])), RDec("0.5000006"))
                                          ELSE Reported(row[m], final[m])
        \* a discontinuous kernel at bandwidths known with six decimals: the score is only judged where it is known exactly
        jumps == \E m \in 1..dims : At(ListOf(c, "kerns"), m) = "boxcar"
        \* the bandwidths are only known with six decimals: a score further off has to be explained by that
        Moved(row, sc) ==
            LET mv(m) == GwdrScore(d, c, X, [EvalBws(row) EXCEPT ![m] = RAdd(row[m], RDec("1e-6"))])
                S == Force([m \in 1..dims |-> mv(m)])
            IN IF \E m \in 1..dims : S[m].kind # "value" THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, by |-> RMul(RInt(3), VSum(Force([m \in 1..dims |-> RAbs(RSub(S[m].v, sc.v))])))]
        NearScore(sc, v, row) == \/ sc.kind # "value"
                                 \/ RNear(v, sc.v, RDec("2e-4"), RAdd(sc.tol, RDec("1e-3")))
                                 \/ LET mv == Moved(row, sc) IN ~mv.ok \/ RNear(v, sc.v, RDec("2e-4"), RAdd(RAdd(sc.tol, RDec("1e-3")), mv.by))
        sc0 == GwdrScore(d, c, X, start)
        some == {1, 2, Len(ev), (Len(ev) + 1) \div 2} \cap 1..Len(ev)
    IN IF ~GetB(c, "auto", "0") THEN When(final = NumsOf(c, "bws"), "the configured bandwidths are used")
       ELSE IF Len(ev) = 0 THEN {}
       ELSE When(jumps \/ \A i \in some : NearScore(GwdrScore(d, c, X, EvalBws(ev[i])), EvalScore(ev[i]), ev[i]), "reported scores of bandwidths")
            \cup When(sc0.kind = "value" => NearScore(sc0, EvalScore(ev[1]), ev[1]), "reported score of the initial bandwidths")
            \cup (IF sc0.kind = "value"
                  THEN When(\A m \in 1..dims : Reported(ev[1][m], start[m]), "the optimisation starts at the configured bandwidths")
                       \cup When(\E i \in 1..Len(ev) : Rounds(ev[i]) /\ RLe(EvalScore(ev[i]), EvalScore(ev[1])),
                                 "optimised bandwidths score no worse than the initial ones")
                  ELSE When(\E i \in 1..Len(ev) : Rounds(ev[i]), "optimised bandwidths were evaluated"))

GwdrVars(d, c, r) ==
    LET vs == AutoVars(d, c, r) IN
    IF ~GetB(c, "avar", "0") THEN {} ELSE
         When(\A i \in 1..Len(r.varlist) :
                ScoreOk(GwdrVarScore(d, c, Force2(MSelCols(d.x, VarCols(c, VarRow(r.varlist[i]))))), r.varlist[i][1]),
              "recorded scores of variable subsets")
         \cup When(\A i \in 1..Len(vs) : vs[i] < MCols(d.x) /\ ~(GetB(c, "icpt", "1") /\ vs[i] = 0), "selected variables are candidates")
GwdrX(d, c, r) == IF GetB(c, "avar", "0") /\ Len(AutoVars(d, c, r)) > 0 THEN AutoX(d, c, r) ELSE d.x

Doubtful(X, W) == \E i \in 1..Len(W) : Unsolvable(X, W[i]) /\ Support(W[i]) # {}
GwdrFit(d, c, X, bws, e) ==
    LET q == DimWeights(c, bws, d.coords, d.coords) IN
    IF ~q.ok \/ Doubtful(X, q.W) THEN {} ELSE FitW(X, d.y, q.W, [k \in DOMAIN c \cup {"storeC", "storeS"} |-> IF k \in {"storeC", "storeS"} THEN "0" ELSE c[k]], M11(e.res.bws), [e EXCEPT !.res = @ @@ [bw |-> e.res.bws]], R0)

GwdrPredict(d, c, e) ==
    LET loc == e.res.loc
        q == DimWeights(c, NumsOf(c, "bws"), loc, d.coords)
        sols == Solve(d.x, d.y, q.W)
        all == \A i \in 1..Len(loc) : Judged(sols[i])
        B == e.res.ret
    IN IF ~q.ok \/ Doubtful(d.x, q.W) THEN {}
       ELSE IF e.threw THEN When(~all, "a solvable prediction does not fail")
       ELSE IF \E i \in 1..Len(loc) : Unsolvable(d.x, q.W[i]) THEN {"an unsolvable local system fails with an error"}
       ELSE When(MShape(B, Len(loc), MCols(d.x)), "one coefficient row per location")
            \cup (IF ~MShape(B, Len(loc), MCols(d.x)) THEN {} ELSE
                  When(\A i \in 1..Len(loc) : Judged(sols[i]) => BetaOk(sols[i], B[i]), "coefficients are the local regression at the location"))
GwdrClauses(d, c, e) ==
    CASE e.call = "fit" /\ e.threw ->
            IF GetB(c, "auto", "0") \/ GetB(c, "avar", "0") THEN {}
            ELSE LET q == DimWeights(c, NumsOf(c, "bws"), d.coords, d.coords) IN
                 IF ~q.ok \/ Doubtful(d.x, q.W) THEN {} ELSE FitW(d.x, d.y, q.W, c, R0, e, R0)
      [] e.call = "fit" -> LET X == GwdrX(d, c, e.res) IN
            GwdrVars(d, c, e.res) \cup OptClauses(d, c, X, e.res, e.evals) \cup GwdrFit(d, c, X, e.res.bws[1], e)
      [] e.call = "predict" -> GwdrPredict(d, c, e)
      [] e.call = "crit" -> IF e.threw THEN {"scoring does not fail"} ELSE
            LET sc == GwdrScore(d, c, d.x, NumsOf(e.arg, "cbws")) IN
            When(ScoreOk(sc, M11(e.res.score)), "score of bandwidths (" \o sc.kind \o ")")
            \cup When(e.res.bws[1] = NumsOf(c, "bws") /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged")
      [] e.call = "vcrit" -> IF e.threw THEN {"scoring does not fail"} ELSE
            LET vs == e.res.vs  \* scored by a positive-definite inverse
                X == MSelCols(d.x, VarCols(c, [i \in 1..Len(vs[1]) |-> RToInt(vs[1][i])]))
                sc == GwdrVarScore(d, c, Force2(X))
            IN When(ScoreOk(sc, M11(e.res.score)), "score of a variable subset (" \o sc.kind \o ")")
               \cup When(e.res.bws[1] = NumsOf(c, "bws") /\ M11(e.res.nx) = RInt(MCols(d.x)), "scoring leaves the model unchanged")
=============================================================================
