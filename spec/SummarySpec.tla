---------------------------- MODULE SummarySpec ----------------------------
(***************************************************************************)
(* Local summaries without a regression: summary statistics, principal     *)
(* components, and discriminant analysis.                                  *)
(***************************************************************************)
EXTENDS GwrSpec

Normal(w) == LET s == VSum(w) IN Force([i \in 1..Len(w) |-> RDiv(w[i], s)])
Centred(v, m) == Force([i \in 1..Len(v) |-> RSub(v[i], m)])
Dot3(a, b, c) == VSum([i \in 1..Len(a) |-> RMul(a[i], RMul(b[i], c[i]))])
Cube(v) == Force([i \in 1..Len(v) |-> RMul(v[i], RMul(v[i], v[i]))])
\* a location is judged when its weights have a sum to speak of
Weighty(w) == RLt(RDec("1e-200"), VSum(w))

(* ---- summary statistics ---- *)
\* average ranks, tied values sharing theirs
Ranks(v) == Force([i \in 1..Len(v) |-> RAdd(RInt(Cardinality({j \in 1..Len(v) : RLt(v[j], v[i])})),
                     RDiv(RInt(Cardinality({j \in 1..Len(v) : v[j] = v[i]}) + 1), R2))])
RECURSIVE CumTo(_, _)
CumTo(v, i) == IF i = 1 THEN << v[1] >> ELSE LET c == CumTo(v, i - 1) IN Append(c, RAdd(c[i - 1], v[i]))
(* The values that can stand for the quantile k of v under the weights W: the last one, in increasing order, before the
   accumulated weight passes k.  More than one where k is met exactly, or tied values may be accumulated in any order. *)
QuantileSet(v, W, k) ==
    LET o == VSortIndex(v)
        x == Force([i \in 1..Len(v) |-> v[o[i]]])
        C == Force(CumTo([i \in 1..Len(v) |-> W[o[i]]], Len(v)))
        eps == RDec("1e-12")
        pass == {i \in 1..Len(v) : RLt(RSub(k, eps), C[i]) /\ (i = 1 \/ RLe(C[i - 1], RAdd(k, eps)))}
        group(i) == {j \in 1..Len(v) : x[j] = x[i]}
        first(i) == CHOOSE j \in group(i) : \A m \in group(i) : j <= m
        before(i) == x[IF i > 1 THEN i - 1 ELSE 1]
    IN UNION { {before(i)} \cup (IF Cardinality(group(i)) > 1 THEN {before(first(i)), x[i]} ELSE {}) : i \in pass }

\* what a location's row of the averages must be, variable j with values v; W the normalised weights
AverageBad(c, r, i, j, v, W) ==
    LET top == VMaxAbs(v)
        m == VDot(W, v)
        z == Centred(v, m)
        var == Dot3(W, z, z)
        sd == RSqrt(var)
        spread == RLt(RMul(RDec("1e-6"), Pow2(top)), var)
        Q(k) == QuantileSet(v, W, RDec(k))
    IN When(RNear(r.mean[i][j], m, RDec("1e-10"), RMul(RDec("1e-12"), top)), "local mean")
       \cup When(RNear(r.var[i][j], var, RDec("1e-9"), RMul(RDec("1e-12"), Pow2(top))), "local variance")
       \cup When(RNear(Pow2(r.sd[i][j]), var, RDec("1e-9"), RMul(RDec("1e-12"), Pow2(top))) /\ ~RLt(r.sd[i][j], R0), "local standard deviation")
       \cup (IF ~spread THEN {} ELSE
             When(RNear(r.skew[i][j], RDiv(VDot(W, Cube(z)), RMul(var, sd)), RDec("1e-7"), RDec("1e-8")), "local skewness"))
       \cup (IF ~spread \/ ~RLt(RMul(RDec("1e-6"), top), RAbs(m)) THEN {} ELSE
             When(RNear(r.cv[i][j], RDiv(sd, m), RDec("1e-7"), R0), "local coefficient of variation"))
       \cup (IF ~GetB(c, "quant", "0") THEN {} ELSE
             LET q1 == Q("0.25") q2 == Q("0.5") q3 == Q("0.75")
                 iqr == r.iqr[i][j] md == r.median[i][j]
             IN When(md \in q2, "local median is a value of the variable at half the weight")
                \cup When(\E a \in q1 : \E b \in q3 :
                            /\ RNear(iqr, RSub(b, a), RDec("1e-12"), R0)
                            /\ (iqr = R0 \/ RNear(r.qi[i][j], RDiv(RSub(RMul(R2, md), RAdd(a, b)), RSub(b, a)), RDec("1e-9"), RDec("1e-9"))),
                          "local quartile range and imbalance"))

\* the column of each pair of variables
Pairs(k, firstOnly) ==
    LET top == IF firstOnly THEN 1 ELSE k - 1
        RECURSIVE P(_)
        P(a) == IF a > top THEN << >> ELSE [b \in 1..(k - a) |-> <<a, a + b>>] \o P(a + 1)
    IN P(1)
WCov(u, v, W) == LET x == Centred(u, VDot(W, u)) y == Centred(v, VDot(W, v)) IN RDiv(Dot3(W, x, y), RSub(R1, Sumsq(W)))
PairBad(r, i, t, u, v, ru, rv, W) ==
    LET tu == VMaxAbs(u) tv == VMaxAbs(v)
        free == RSub(R1, Sumsq(W))
        cv == WCov(u, v, W) vu == WCov(u, u, W) vv == WCov(v, v, W)
        su == WCov(ru, ru, W) sv == WCov(rv, rv, W)
        spread(x, top) == RLt(RMul(RDec("1e-6"), Pow2(top)), x)
        in(x) == RLe(RAbs(x), RDec("1.00000001"))
        rr(x, y, z) == RDiv(x, RSqrt(RMul(y, z)))
    IN IF ~RLt(RDec("1e-6"), free) THEN {}
       ELSE When(RNear(r.cov[i][t], cv, RDec("1e-9"), RMul(RDec("1e-11"), RDiv(RMul(tu, tv), free))), "local covariance")
            \cup (IF ~spread(vu, tu) \/ ~spread(vv, tv) THEN {} ELSE
                  When(RNear(r.corr[i][t], rr(cv, vu, vv), RDec("1e-7"), RDec("1e-8")), "local correlation")
                  \cup When(in(r.corr[i][t]), "correlations between -1 and 1"))
            \cup (IF ~spread(su, VMaxAbs(ru)) \/ ~spread(sv, VMaxAbs(rv)) THEN {} ELSE
                  When(RNear(r.scorr[i][t], rr(WCov(ru, rv, W), su, sv), RDec("1e-7"), RDec("1e-8")), "local rank correlation")
                  \cup When(in(r.scorr[i][t]), "rank correlations between -1 and 1"))

GwssClauses(d, c, e) ==
    LET n == Len(d.x) k == MCols(d.x) r == e.res
        w == WeightOf(c, CfgBw(c))
        dr == SelfDist(c, d)
        W == WeightsFor(w, dr)
        corr == Get(c, "mode", "avg") = "corr"
        cols == Force([j \in 1..k |-> Force(MCol(d.x, j))])
        ps == Pairs(k, GetB(c, "first", "0"))
        rk == Force([j \in 1..k |-> Ranks(cols[j])])
        shape(m, q) == MShape(m, n, q)
        names == IF corr THEN <<r.mean, r.var>>
                 ELSE IF GetB(c, "quant", "0") THEN <<r.mean, r.var, r.sd, r.skew, r.cv, r.median, r.iqr, r.qi>> ELSE <<r.mean, r.var, r.sd, r.skew, r.cv>>
    IN IF corr /\ k < 2 THEN When(e.threw, "correlations of fewer than two variables are an error")
       ELSE IF ~UsableAll(w, dr) THEN {}
       ELSE IF e.threw THEN {"a summary does not fail"}
       ELSE IF (\E i \in 1..Len(names) : ~shape(names[i], k)) \/ (corr /\ \E m \in {r.cov, r.corr, r.scorr} : ~shape(m, Len(ps)))
            THEN {"one row per location and one column per variable or pair"}
       ELSE IF ~EdgeSafe(w, dr) THEN {}
       ELSE UNION { IF ~Weighty(W[i]) THEN {} ELSE
                    LET N == Normal(W[i]) IN
                    IF corr THEN
                        UNION { LET v == cols[j] m == VDot(N, v) z == Centred(v, m) IN
                                When(RNear(r.mean[i][j], m, RDec("1e-10"), RMul(RDec("1e-12"), VMaxAbs(v))), "local mean")
                                \cup When(RNear(r.var[i][j], Dot3(N, z, z), RDec("1e-9"), RMul(RDec("1e-12"), Pow2(VMaxAbs(v)))), "local variance") : j \in 1..k }
                        \cup UNION { PairBad(r, i, t, cols[ps[t][1]], cols[ps[t][2]], rk[ps[t][1]], rk[ps[t][2]], N) : t \in 1..Len(ps) }
                    ELSE UNION { AverageBad(c, r, i, j, cols[j], N) : j \in 1..k } : i \in 1..n }

(* ---- principal components ---- *)
GwpcaClauses(d, c, e) ==
    LET n == Len(d.x) k == MCols(d.x) K == GetI(c, "keep", "2") r == e.res
        w == WeightOf(c, CfgBw(c))
        dr == SelfDist(c, d)
        W == WeightsFor(w, dr)
        Local(i) ==
            LET N == Normal(W[i])
                ms == Force([j \in 1..k |-> VDot(N, MCol(d.x, j))])
                Z == Force2([a \in 1..n |-> [j \in 1..k |-> RSub(d.x[a][j], ms[j])]])
                C == Force2(XtWX(Z, N))
                ev == Force(EigSym(C))
                tr == MTrace(C)
                tol == RAdd(RMul(RDec("1e-9"), tr), RMul(RDec("1e-13"), Pow2(MMaxAbs(d.x))))
                V == Force([q \in 1..K |-> r.load[(q - 1) * n + i]])
                lam(q) == Pow2(r.sdev[i][q])
                pv(q) == RMul(RInt(100), RDiv(ev[q], tr))
                ptol == RAdd(RDec("1e-7"), RDiv(RMul(RInt(200), tol), tr))
            IN When(\A q \in 1..k : ~RLt(r.sdev[i][q], R0) /\ RNear(lam(q), RMax(R0, ev[q]), RDec("1e-8"), tol), "deviations are the roots of the local eigenvalues")
               \cup When(\A q \in 1..K : \A p \in 1..K : RNear(VDot(V[q], V[p]), IF p = q THEN R1 ELSE R0, R0, RDec("1e-9")), "loadings are orthonormal")
               \cup When(\A q \in 1..K : VClose(MVec(C, V[q]), VScale(ev[q], V[q]), R0, tol), "loadings are eigenvectors, in decreasing order of variance")
               \cup (IF ~RLt(RMul(RDec("1e-8"), Pow2(MMaxAbs(d.x))), tr) THEN {} ELSE
                     When(\A q \in 1..K : RNear(r.pv[i][q], pv(q), RDec("1e-7"), ptol), "explained percentages are those of the eigenvalues")
                     \cup When(\A q \in 1..K : ~RLt(r.pv[i][q], R0) /\ (q = 1 \/ RLe(r.pv[i][q], r.pv[i][q - 1])), "explained percentages do not increase")
                     \cup When(K < k \/ RNear(VSum(r.pv[i]), RInt(100), RDec("1e-9"), R0), "all components explain everything"))
    IN IF K < 1 \/ K > k \/ n < k \/ ~UsableAll(w, dr) THEN {}
       ELSE IF e.threw THEN {"a local analysis does not fail"}
       ELSE IF ~MShape(r.pv, n, K) \/ ~MShape(r.sdev, n, k) \/ ~MShape(r.load, n * K, k) \/ M11(r.slices) # RInt(K) THEN {"one row per location and one slice per component"}
       ELSE IF ~EdgeSafe(w, dr) THEN {}
       ELSE UNION { IF Weighty(W[i]) THEN Local(i) ELSE {} : i \in 1..n }

(* ---- discriminant analysis ---- *)
RECURSIVE LevelsTo(_, _)
LevelsTo(lab, i) == IF i = 0 THEN << >> ELSE LET L == LevelsTo(lab, i - 1) IN IF \E j \in 1..Len(L) : L[j] = lab[i] THEN L ELSE Append(L, lab[i])
LevelOf(L, s) == CHOOSE j \in 1..Len(L) : L[j] = s
RECURSIVE Members(_, _, _)
Members(lab, s, i) == IF i = 0 THEN << >> ELSE LET M == Members(lab, s, i - 1) IN IF lab[i] = s THEN Append(M, i) ELSE M
\* mean and unbiased covariance of the rows of X under weights v; free is what is left of one after the squared weights
Moments(X, v) ==
    LET s == VSum(v)
        N == Force([i \in 1..Len(v) |-> RDiv(v[i], s)])
        k == MCols(X)
        m == Force([j \in 1..k |-> VDot(N, MCol(X, j))])
        free == RSub(R1, Sumsq(N))
        Z == Force2([a \in 1..Len(X) |-> [j \in 1..k |-> RSub(X[a][j], m[j])]])
    IN [mean |-> m, cov |-> Force2(MScale(RDiv(R1, free), XtWX(Z, N))), ok |-> RLt(RDec("1e-200"), s) /\ RLt(RDec("1e-5"), free), sum |-> s]
SpectralNorm(C) == EigSym(C)[1]
\* the score of one class: lower is better
ClassScore(C, inv, x, mean, m, prior) ==
    LET z == Force(VSub(x, mean)) IN
    RSub(RAdd(RMul(RDiv(RInt(m), R2), RLog(SpectralNorm(C))), RMul(RDec("0.5"), VDot(z, MVec(inv, z)))), RLog(prior))
GwdaClauses(d, c, e) ==
    LET n == Len(d.x) k == MCols(d.x) r == e.res
        w == WeightOf(c, CfgBw(c))
        dr == SelfDist(c, d)
        W0 == WeightsFor(w, dr)
        \* the others' weights only
        W == Force([i \in 1..n |-> Force([W0[i] EXCEPT ![i] = R0])])
        L == LevelsTo(d.lab, n) m == Len(L)
        M == Force([g \in 1..m |-> Members(d.lab, L[g], n)])
        XG == Force([g \in 1..m |-> Force2([a \in 1..Len(M[g]) |-> d.x[M[g][a]]])])
        ones(g) == Force(VConst(Len(M[g]), R1))
        loc(g, i) == Force([a \in 1..Len(M[g]) |-> W[i][M[g][a]]])
        all == VSum(Force([i \in 1..n |-> VSum(W[i])]))
        glob == Force([g \in 1..m |-> Moments(XG[g], ones(g))])
        Expected(i) ==
            LET lm == Force([g \in 1..m |-> Moments(XG[g], loc(g, i))])
                mn(g) == IF GetB(c, "hmean", "1") THEN lm[g] ELSE glob[g]
                co(g) == IF GetB(c, "hcov", "1") THEN lm[g] ELSE glob[g]
                pr(g) == IF GetB(c, "hprior", "1") THEN RDiv(lm[g].sum, all) ELSE RDiv(RInt(Len(M[g])), RMul(RInt(n), RInt(n)))
                pool == Force2([a \in 1..k |-> Force([b \in 1..k |-> RDiv(VSum([g \in 1..m |-> RMul(RInt(Len(M[g])), co(g).cov[a][b])]), RInt(n))])])
                cov == Force([g \in 1..m |-> IF GetB(c, "wqda", "0") THEN co(g).cov ELSE pool])
                okm == \A g \in 1..m : mn(g).ok /\ co(g).ok /\ RLt(R0, pr(g))
                iv == Force([g \in 1..m |-> IF okm THEN MInv(cov[g]) ELSE [ok |-> FALSE, inv |-> << >>]])
                cond(g) == IF iv[g].ok THEN RMul(MNormInf(cov[g]), MNormInf(iv[g].inv)) ELSE Big
                ok == okm /\ \A g \in 1..m : RLe(cond(g), RDec("1e7"))
            IN [ok |-> ok, tol |-> IF ok THEN RMul(RDec("1e-12"), VMax([g \in 1..m |-> RAdd(R1, cond(g))])) ELSE R0,
                s |-> IF ok THEN Force([g \in 1..m |-> ClassScore(cov[g], iv[g].inv, d.x[i], mn(g).mean, m, pr(g))]) ELSE << >>]
        Row(i) ==
            LET x == Expected(i)
                f == VFinite(r.res[i])
                best == VMin(r.res[i])
                raw == Force([g \in 1..m |-> RExp(RSub(best, r.res[i][g]))])
                sum == VSum(raw)
                p == r.probs[i]
                h == RNeg(VSum([g \in 1..m |-> IF RLt(R0, p[g]) THEN RMul(p[g], RLog(p[g])) ELSE R0]))
                en == r.entropy[i][1]
                g == RToInt(r.group[i][1])
            IN (IF ~x.ok THEN {} ELSE When(VClose(r.res[i], x.s, RAdd(RDec("1e-9"), x.tol), RDec("1e-9")), "class scores of the other samples"))
               \cup (IF ~f THEN {} ELSE
                     When(g \in 1..m /\ r.res[i][g] = best, "assigned to the class with the best score")
                     \cup When(VClose(p, [q \in 1..m |-> RDiv(raw[q], sum)], RDec("1e-9"), RDec("1e-12")), "class probabilities follow the scores")
                     \cup When(\A q \in 1..m : ~RLt(p[q], R0), "class probabilities are not negative")
                     \cup When(RNear(VSum(p), R1, RDec("1e-9"), R0), "class probabilities sum to one")
                     \cup When(r.pmax[i][1] = VMax(p), "the reported maximum is the largest probability")
                     \cup When(m = 1 \/ RNear(en, RDiv(h, RLog(RInt(m))), RDec("1e-8"), RDec("1e-9")), "normalised entropy")
                     \cup When(m = 1 \/ (RLe(RNeg(RDec("1e-9")), en) /\ RLe(en, RDec("1.000000001"))), "normalised entropy between 0 and 1"))
    IN IF k < 2 THEN When(e.threw, "fewer than two variables are an error")
       ELSE IF ~UsableAll(w, dr) \/ e.threw THEN {}
       ELSE IF ~MShape(r.res, n, m) \/ ~MShape(r.probs, n, m) \/ ~MShape(r.pmax, n, 1) \/ ~MShape(r.entropy, n, 1) \/ ~MShape(r.group, n, 1)
            THEN {"one row per sample and one column per class"}
       ELSE (IF ~EdgeSafe(w, dr) THEN {} ELSE UNION { Row(i) : i \in 1..n })
            \cup When(RNear(M11(r.rate), RDiv(RInt(Cardinality({i \in 1..n : LET g == RToInt(r.group[i][1]) IN g \in 1..m /\ L[g] = d.lab[i]})), RInt(n)), RDec("1e-12"), R0),
                      "correct rate is the share of samples assigned to their own class")
=============================================================================
