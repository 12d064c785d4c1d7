------------------------------ MODULE GtwrSpec ------------------------------
(***************************************************************************)
(* Spatio-temporal GWR: basic GWR under the space-time distance, with an   *)
(* optional search of the mixing factor that explains most.                *)
(***************************************************************************)
EXTENDS GwrSpec

\* the configuration with another mixing factor
WithLambda(c, v) == [k \in DOMAIN c \cup {"lambda"} |-> IF k = "lambda" THEN RStr(v) ELSE c[k]]

\* share of the variance explained under a mixing factor, and how exactly it is known; ok = FALSE when it is not judged
Explained(d, c, bw, v) ==
    LET cl == WithLambda(c, v)
        w == WeightOf(cl, bw)
        dr == SelfDist(cl, d)
        sols == Solve(d.x, d.y, WeightsFor(w, dr))
        B == Force2([i \in 1..Len(d.y) |-> sols[i].beta])
        tss == TSS(d.y)
        nz == RAdd(RSSNoise(d.x, d.y, B), RMul(MaxTol(sols), RAdd(Sumsq(d.y), Sumsq(Fitted(d.x, B)))))
    IN IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) \/ ~RLt(RMul(RDec("1e-9"), Sumsq(d.y)), tss) THEN [ok |-> FALSE]
       ELSE IF \E i \in 1..Len(sols) : ~Judged(sols[i]) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, v |-> RSub(R1, RDiv(RSSOf(d.x, d.y, B), tss)), err |-> RMul(R2, RDiv(nz, tss))]

\* golden-section search of [0,1]: [a, b] known so far, inner points p < q; the interval the result must lie in
InvPhi == RDiv(RSub(RSqrt(RInt(5)), R1), R2)
Inner(g) == [p |-> RAdd(g.a, RMul(RSub(R1, InvPhi), RSub(g.b, g.a))), q |-> RAdd(g.a, RMul(InvPhi, RSub(g.b, g.a)))]
Clear(u, v) == RLt(RAdd(u.err, v.err), RAbs(RSub(u.v, v.v)))
RECURSIVE Narrow(_, _, _, _)
Narrow(d, c, bw, g) ==
    \* over: the result is the middle; open: it is anywhere in the interval
    IF ~(g.fa.ok /\ g.fb.ok /\ g.fp.ok /\ g.fq.ok) THEN [a |-> g.a, b |-> g.b, over |-> FALSE]
    ELSE IF g.fa.v = g.fb.v /\ g.fa.err = R0 THEN [a |-> g.a, b |-> g.b, over |-> TRUE]
    ELSE IF g.iter >= 100 THEN [a |-> g.a, b |-> g.b, over |-> TRUE]
    ELSE IF RLt(RAbs(RSub(g.fa.v, g.fb.v)), RAdd(RDec("1e-11"), RAdd(g.fa.err, g.fb.err))) THEN [a |-> g.a, b |-> g.b, over |-> FALSE]
    ELSE IF ~Clear(g.fp, g.fq) THEN [a |-> g.a, b |-> g.b, over |-> FALSE]
    ELSE IF RLt(g.fq.v, g.fp.v)
         THEN LET n == [g EXCEPT !.b = g.q, !.fb = g.fq, !.q = g.p, !.fq = g.fp, !.iter = g.iter + 1]
                  p == Inner(n).p
              IN Narrow(d, c, bw, [n EXCEPT !.p = p, !.fp = Explained(d, c, bw, p)])
         ELSE LET n == [g EXCEPT !.a = g.p, !.fa = g.fp, !.p = g.q, !.fp = g.fq, !.iter = g.iter + 1]
                  q == Inner(n).q
              IN Narrow(d, c, bw, [n EXCEPT !.q = q, !.fq = Explained(d, c, bw, q)])
LambdaRange(d, c, bw) ==
    LET g0 == [a |-> R0, b |-> R1]
        i == Inner(g0)
        E(v) == Explained(d, c, bw, v)
    IN Narrow(d, c, bw, [a |-> R0, b |-> R1, p |-> i.p, q |-> i.q, fa |-> E(R0), fb |-> E(R1), fp |-> E(i.p), fq |-> E(i.q), iter |-> 0])
LambdaClauses(d, c, bw, r) ==
    LET lam == M11(r.lambda)
        g == LambdaRange(d, c, bw)
        slack == RDec("1e-9")
    IN IF ~GetB(c, "alam", "0") THEN When(lam = GetR(c, "lambda", "0"), "the configured mixing factor is used")
       ELSE When(RLe(R0, lam) /\ RLe(lam, R1), "selected mixing factor in [0,1]")
            \cup When(RLe(RSub(g.a, slack), lam) /\ RLe(lam, RAdd(g.b, slack)), "selected mixing factor is where the search leads")
            \cup (IF g.over THEN When(RNear(lam, RDiv(RAdd(g.a, g.b), R2), R0, slack), "selected mixing factor is the middle of the last interval") ELSE {})

GtwrFit(d, c, e) ==
    LET bw == AutoBw(c, e.res)
        cl == WithLambda(c, M11(e.res.lambda))
        Sc(X, b) == BwScore(d, c, X, b)
    IN BwListClauses(c, d.x, e.res, Sc) \cup LambdaClauses(d, c, bw, e.res) \cup FitClauses(d, cl, bw, d.x, e)
\* A prediction carries no times, so at other locations the local regression is not determined; but it is not that of the
\* samples which happen to have the same row numbers.
GtwrPredict(d, c, bw, e) ==
    LET loc == e.res.loc
        n == Len(d.y)
        w == WeightOf(c, bw)
        dr == SelfDist(c, d)
        sols == Solve(d.x, d.y, WeightsFor(w, dr))
        all == \A i \in 1..n : Judged(sols[i])
        B == e.res.ret
    IN IF loc = d.coords THEN PredictClauses(d, c, bw, e)
       ELSE IF ~UsableAll(w, dr) \/ ~EdgeSafe(w, dr) \/ ~all THEN {}
       ELSE IF e.threw THEN {"a solvable prediction does not fail"}
       ELSE When(MShape(B, Len(loc), MCols(d.x)), "one coefficient row per location")
            \cup (IF ~MShape(B, Len(loc), MCols(d.x)) THEN {} ELSE
                  When(~\A i \in 1..Len(loc) : i <= n /\ BetaOk(sols[i], B[i]), "prediction uses the requested locations"))
\* a fit that failed: only judged when nothing was to be selected
GtwrClauses(d, c, e) ==
    CASE e.call = "fit" /\ e.threw -> IF GetB(c, "auto", "0") \/ GetB(c, "alam", "0") THEN {} ELSE FitClauses(d, c, CfgBw(c), d.x, e)
      [] e.call = "fit" -> GtwrFit(d, c, e)
      [] e.call = "predict" -> GtwrPredict(d, c, CfgBw(c), e)
      [] e.call = "crit" -> CritClauses(d, c, e)
=============================================================================
