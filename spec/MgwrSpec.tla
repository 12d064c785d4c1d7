------------------------------ MODULE MgwrSpec ------------------------------
(***************************************************************************)
(* Multiscale GWR.  The run is a transition system whose steps are the     *)
(* reports of the back-fitting: an initial GWR, one selection per variable *)
(* without a bandwidth, then sweeps in which every variable is refitted on *)
(* the partial residual of the others.  The specification makes the same   *)
(* steps and must arrive at the same coefficients.                         *)
(***************************************************************************)
EXTENDS GwdrSpec, GoldenSection
LOCAL INSTANCE SequencesExt

(* ---- one variable: x and y vectors, W one weight vector per sample ---- *)
UniDen(x, w) == VDot(VMul(w, x), x)
UniBeta(x, y, W) == Force([f \in 1..Len(W) |-> RDiv(VDot(VMul(W[f], x), y), UniDen(x, W[f]))])
UniHat(x, W) == Force2([f \in 1..Len(W) |-> LET a == RDiv(x[f], UniDen(x, W[f])) IN VScale(a, VMul(W[f], x))])
\* "none": certainly singular; "bad": too close to singular to be judged
UniState(x, W) ==
    LET dn == Force([f \in 1..Len(W) |-> UniDen(x, W[f])]) IN
    IF \E f \in 1..Len(W) : dn[f] = R0 THEN "none"
    ELSE IF \E f \in 1..Len(W) : ~RLe(RDec("1e-200"), dn[f]) \/ ~RFinite(dn[f]) THEN "bad" ELSE "ok"
UniNoise(x, y, b) == RMul(RDec("1e-9"), RAdd(Sumsq(y), Sumsq(VMul(x, b))))
UniScore(crit, x, y, W) ==
    LET n == Len(y)
        V == IF crit = "AIC" THEN W ELSE Force([i \in 1..n |-> Force([W[i] EXCEPT ![i] = R0])])
        st == UniState(x, V)
    IN IF st = "none" THEN Score("refused", Big, R0)
       ELSE IF st = "bad" THEN Score("free", R0, R0)
       ELSE LET b == UniBeta(x, y, V)
                rss == Sumsq(VSub(y, VMul(x, b)))
                nz == UniNoise(x, y, b)
            IN IF crit # "AIC" THEN Score("value", rss, nz)
               ELSE LET tr == MTrace(UniHat(x, V))
                        gap == RSub(RSub(RInt(n), R2), tr)
                    IN IF ~RLt(RMul(RInt(100), nz), rss) \/ RLt(RAbs(gap), RDec("1e-5")) THEN Score("free", R0, R0)
                       ELSE Score("value", AICcOf(n, rss, tr),
                              RMul(RInt(n), RAdd(RMul(R2, RDiv(nz, rss)), RMul(RDec("1e-9"), RMul(RDiv(RInt(n), gap), RDiv(RInt(n), gap))))))

(* ---- configuration ---- *)
Centred(c, X) ==
    LET lo == IF GetB(c, "icpt", "1") THEN 2 ELSE 1
        Cn(j) == j >= lo /\ At(ListOf(c, "cens"), j) = "1"
        m == [j \in 1..MCols(X) |-> VMean(MCol(X, j))]
    IN Force2([i \in 1..Len(X) |-> [j \in 1..MCols(X) |-> IF Cn(j) THEN RSub(X[i][j], m[j]) ELSE X[i][j]]])
VarWeight(c, i, bw) == [k |-> At(ListOf(c, "kerns"), i), ad |-> At(ListOf(c, "ads"), i) = "1", bw |-> bw]
InitOf(c, i) == At(ListOf(c, "inits"), i)
CritOf(c, i) == At(ListOf(c, "apps"), i)
\* the range a bandwidth is searched in
LowOf(c, i, dr) == IF Has(c, "lo") THEN GetR(c, "lo", "0") ELSE IF VarWeight(c, i, R1).ad THEN GetR(c, "alow", "10")
                   ELSE VMin([f \in 1..Len(dr) |-> VMin(dr[f])])
UpOf(c, i, dr) == IF Has(c, "up") THEN GetR(c, "up", "0") ELSE IF VarWeight(c, i, R1).ad THEN RInt(Len(dr))
                  ELSE VMax([f \in 1..Len(dr) |-> VMax(dr[f])])
\* the two bandwidths every search tries first
GoldenR == RDec("0.618033988749894848")
FirstBw(c, i, dr, s) ==
    LET lo == LowOf(c, i, dr) up == UpOf(c, i, dr) dd == RMul(GoldenR, RSub(up, lo)) ad == VarWeight(c, i, R1).ad
    IN IF s = 1 THEN (IF ad THEN RFloor(RAdd(lo, dd)) ELSE RAdd(lo, dd)) ELSE IF ad THEN RRound(RSub(up, dd)) ELSE RSub(up, dd)

(* ---- the state of a run ---- *)
(* B: coefficient columns; R: per-variable hat matrices; S: their sum; bws: bandwidths; fixed: variables whose     *)
(* bandwidth is settled; still: consecutive sweeps without a change; nxt: the next variable of the sweep; ph: what *)
(* is going on; seen: scores reported in the current search; sweep: sweeps begun; last: the last criterion; rss;   *)
(* free: the run can no longer be followed                                                                         *)
Partial(X, y, B, i) == LET k == Len(B) IN
    Force([f \in 1..Len(y) |-> RSub(y[f], VSum([j \in 1..k |-> IF j = i THEN R0 ELSE RMul(X[f][j], B[j][f])]))])
FitAll(X, B) == Force([f \in 1..Len(X) |-> VSum([j \in 1..Len(B) |-> RMul(X[f][j], B[j][f])])])
RssB(X, y, B) == Sumsq(VSub(y, FitAll(X, B)))

\* refit the variables from nxt to upto
RECURSIVE Refit(_, _, _)
Refit(m, st, upto) ==
    IF st.free \/ st.failed \/ st.nxt > upto THEN st
    ELSE LET i == st.nxt
             w == VarWeight(m.c, i, st.bws[i])
             W == WeightsFor(w, m.dr)
             x == MCol(m.X, i)
         IN IF ~UsableAll(w, m.dr) \/ ~EdgeSafe(w, m.dr) THEN [st EXCEPT !.free = TRUE]
            ELSE IF UniState(x, W) = "none" THEN [st EXCEPT !.failed = TRUE]
            ELSE IF UniState(x, W) = "bad" THEN [st EXCEPT !.free = TRUE]
            ELSE LET b == UniBeta(x, Partial(m.X, m.y, st.B, i), W)
                     H == IF m.hat THEN UniHat(x, W) ELSE << >>
                     D == IF m.hat THEN Force2(MSub(st.R[i], st.S)) ELSE << >>
                     Ri == IF m.hat THEN Force2(MAdd(MMul(H, D), H)) ELSE << >>
                 IN Refit(m, [st EXCEPT !.B = Force([st.B EXCEPT ![i] = b]), !.nxt = i + 1,
                                        !.R = IF m.hat THEN Force([st.R EXCEPT ![i] = Ri]) ELSE << >>,
                                        !.S = IF m.hat THEN Force2(MSub(Ri, D)) ELSE << >>], upto)

Bad(st, cond, name) == IF cond \/ st.free THEN st ELSE [st EXCEPT !.bad = st.bad \cup {name}]
Six == RDec("0.6e-6")
SixNear(u, v) == RNear(u, v, RDec("1e-9"), Six)
\* the best bandwidth of a search among its reported ones, as far as six decimals tell; xf: what the search found
Found(st, xf, name) ==
    Bad(st, Len(st.seen) > 0 /\ \E j \in 1..Len(st.seen) : SixNear(st.seen[j][1], xf)
            /\ \A q \in 1..Len(st.seen) : RLe(st.seen[j][2], RAdd(st.seen[q][2], Six)), name)
\* what a search of variable i on response yi reports
Search(m, st, i, yi, row) ==
    LET w == VarWeight(m.c, i, row[2])
        ScAt(b) == LET v == [w EXCEPT !.bw = b] IN
              IF ~UsableAll(v, m.dr) \/ ~EdgeSafe(v, m.dr) \/ (w.k = "boxcar" /\ ~w.ad) THEN Score("free", R0, R0)
              ELSE UniScore(CritOf(m.c, i), MCol(m.X, i), yi, WeightsFor(v, m.dr))
        sc == ScAt(row[2])
        \* bandwidths that are not adaptive are known with six decimals: how much that moves the score
        mv == IF w.ad THEN R0
              ELSE LET a == ScAt(RAdd(row[2], RDec("1e-6"))) b == ScAt(RSub(row[2], RDec("1e-6"))) IN
                   IF a.kind # "value" \/ b.kind # "value" THEN Big
                   ELSE RMul(RInt(3), RAdd(RAbs(RSub(a.v, sc.v)), RAbs(RSub(b.v, sc.v))))
        near == LET t == RAdd(sc.tol, RDec("2e-5")) IN
                RNear(row[3], sc.v, RDec("1e-5"), t) \/ RNear(row[3], sc.v, RDec("1e-5"), RAdd(t, mv))
        few == \/ Len(st.seen) <= 1 \/ Len(st.seen) % 5 = 4
        fb(s) == LET b == FirstBw(m.c, i, m.dr, s) v == VarWeight(m.c, i, b) IN
                 \/ SixNear(row[2], b)
                 \/ (~w.ad /\ RNear(row[2], b, RDec("1e-5"), Six))
        r1 == Bad(st, ~few \/ sc.kind = "free" \/ (sc.kind = "value" /\ near),
                  "reported scores of a variable's bandwidths")
        r2 == Bad(r1, RLe(LowOf(m.c, i, m.dr), RAdd(row[2], Six)) /\ RLe(row[2], RAdd(UpOf(m.c, i, m.dr), Six)), "bandwidths are tried within their range")
        r3 == Bad(r2, Len(st.seen) > 0 \/ fb(1) \/ fb(2), "the search begins at the golden section of its range")
    IN [r3 EXCEPT !.seen = Append(st.seen, <<row[2], row[3]>>)]

RowStep(m, st, row) ==
    LET kind == RToInt(row[1]) i == RToInt(row[2]) + 1 IN
    IF st.free THEN st
    ELSE CASE kind = 1 /\ st.ph = "init" -> Search(m, st, st.nxt, m.y, row)
           [] kind = 1 /\ st.ph = "sel"  -> Search(m, st, st.nxt, Partial(m.X, m.y, st.B, st.nxt), row)
           [] kind = 2 -> Bad([st EXCEPT !.ph = "init", !.nxt = i, !.seen = << >>], st.ph \in {"gwr", "between"} /\ InitOf(m.c, i) = "null",
                              "initial bandwidths are searched for the variables without one")
           [] kind = 3 -> LET s1 == Found(st, row[3], "an initial bandwidth has the best reported score") IN
                          Bad([s1 EXCEPT !.ph = "between", !.bws[i] = row[3], !.got = st.got \cup {i}], st.ph = "init" /\ i = st.nxt, "reports come in order")
           [] kind = 4 -> LET s1 == Bad(st, RToInt(row[2]) = st.sweep + 1, "sweeps are numbered")
                              s2 == Bad(s1, st.sweep > 0 => RLt(RSub(m.thr, Six), st.last), "sweeps stop at the threshold")
                              s3 == Bad(s2, st.sweep < m.maxit, "sweeps stop at the limit")
                          IN [s3 EXCEPT !.ph = "sweep", !.sweep = st.sweep + 1, !.nxt = 1, !.rss = IF st.sweep = 0 THEN RssB(m.X, m.y, st.B) ELSE st.rss]
           [] kind = 5 -> LET s1 == Refit(m, st, i - 1) IN
                          Bad(Bad([s1 EXCEPT !.ph = "sel", !.seen = << >>], ~s1.failed, "a singular refit fails"),
                              i \notin st.fixed /\ \A j \in st.nxt..(i - 1) : j \in st.fixed, "bandwidths not settled are selected in every sweep")
           [] kind = 6 -> LET s1 == Found(st, row[4], "a selected bandwidth has the best reported score")
                              same == RLe(row[5], At(m.thrs, i))
                              still == IF same THEN st.still[i] + 1 ELSE 0
                              s2 == Bad(s1, SixNear(row[3], st.bws[i]), "a selection starts at the current bandwidth")
                              s3 == Bad(s2, RNear(row[5], RAbs(RSub(row[4], row[3])), R0, RDec("2e-6")), "the change of a bandwidth")
                          IN Refit(m, [s3 EXCEPT !.ph = "sweep", !.bws[i] = row[4], !.still[i] = still,
                                       !.fixed = IF still >= m.retry THEN st.fixed \cup {i} ELSE st.fixed], i)
           [] kind = 7 -> LET s1 == Refit(m, st, Len(m.X[1]))
                              rss == RssB(m.X, m.y, s1.B)
                              d == RAbs(RSub(rss, st.rss))
                              v == IF m.cvr THEN d ELSE RSqrt(RDiv(d, rss))
                              nz == RMul(RDec("1e-8"), RAdd(RAdd(rss, st.rss), Sumsq(m.y)))
                              \* a relative change of differences of sums: known to the root of the rounding
                              ok == IF m.cvr THEN RNear(row[2], v, RDec("1e-6"), RAdd(nz, RDec("2e-6")))
                                    ELSE RNear(RMul(row[2], row[2]), RMul(v, v), RDec("1e-5"), RAdd(RDiv(nz, rss), RMul(RDec("4e-6"), RAdd(v, RDec("1e-6")))))
                          IN [Bad(Bad(Bad(s1, ~s1.failed, "a singular refit fails"), s1.failed \/ ok, "the reported change of a sweep"),
                                  \A j \in st.nxt..Len(m.X[1]) : j \in st.fixed, "bandwidths not settled are selected in every sweep")
                              EXCEPT !.ph = "swept", !.last = row[2], !.rss = rss]
           [] OTHER -> st

(* ---- the bandwidth of the initial model: a golden section search of the scores of the whole model ---- *)
InitSc(m, b) ==
    LET w == VarWeight(m.c, 1, b) IN
    IF ~UsableAll(w, m.dr) \/ ~EdgeSafe(w, m.dr) THEN Score("free", R0, R0)
    ELSE IF CritOf(m.c, 1) = "AIC" THEN AICScore(m.X, m.y, WeightsFor(w, m.dr)) ELSE CVScore(m.X, m.y, WeightsFor(w, m.dr))
TolOf(s) == IF s.kind = "refused" THEN R0 ELSE RAdd(s.tol, RMul(RDec("1e-9"), RAbs(s.v)))
RECURSIVE Narrowing(_, _, _, _)
\* t1, t2: how far the scores in g are known
Narrowing(m, g, t1, t2) ==
    LET ad == VarWeight(m.c, 1, R1).ad
        diff == RAbs(RSub(g.f1, g.f2)) t == RAdd(t1, t2)
    IN IF g.x1 # g.x2 /\ (RLe(diff, t) \/ RLe(RAbs(RSub(diff, Eps)), t)) THEN [kind |-> "free", bw |-> R1]
       ELSE IF ~GoesOn(g) THEN [kind |-> "bw", bw |-> Best(g)]
       ELSE LET s == InitSc(m, NextX(g, ad)) IN
            IF s.kind = "free" THEN [kind |-> "free", bw |-> R1]
            ELSE IF Right(g) THEN Narrowing(m, Advance(g, ad, s.v), TolOf(s), t1) ELSE Narrowing(m, Advance(g, ad, s.v), t2, TolOf(s))
InitialBw(m) ==
    LET ad == VarWeight(m.c, 1, R1).ad
        lo == IF Has(m.c, "lo") THEN GetR(m.c, "lo", "0") ELSE IF ad THEN RInt(20) ELSE R0
        up == IF Has(m.c, "up") THEN GetR(m.c, "up", "0") ELSE IF ad THEN RInt(Len(m.y)) ELSE VMax([f \in 1..Len(m.dr) |-> VMax(m.dr[f])])
        g == Begin(lo, up, ad)
        s1 == InitSc(m, g.x1) s2 == InitSc(m, g.x2)
    IN IF s1.kind = "free" \/ s2.kind = "free" THEN [kind |-> "free", bw |-> R1]
       ELSE IF s1.kind = "refused" /\ s2.kind = "refused" THEN [kind |-> "none", bw |-> R1]
       ELSE Narrowing(m, g @@ [f1 |-> s1.v, f2 |-> s2.v], TolOf(s1), TolOf(s2))

MgwrFit(d, c, e) ==
    LET n == Len(d.y) k == MCols(d.x)
        X == Centred(c, d.x)
        dr == SelfDist(c, d)
        rows == e.steps
        r == e.res
        m == [c |-> c, X |-> X, y |-> d.y, dr |-> dr, hat |-> GetB(c, "hat", "1"), thr |-> GetR(c, "cthr", "1e-6"), maxit |-> GetI(c, "maxit", "500"),
              thrs |-> NumsOf(c, "thrs"), retry |-> GetI(c, "retry", "5"), cvr |-> Get(c, "ctype", "dCVR") = "CVR"]
        g0 == InitialBw(m)
        w0 == VarWeight(c, 1, g0.bw)
        ok0 == g0.kind = "bw"
        W0 == WeightsFor(w0, dr)
        sols == Solve(X, d.y, W0)
        judged == ok0 /\ \A i \in 1..n : Judged(sols[i])
        R == IF m.hat THEN Force([a \in 1..k |-> Force2([f \in 1..n |-> VScale(X[f][a], CMat(sols[f], X, W0[f])[a])])]) ELSE << >>
        RECURSIVE SumM(_)
        SumM(a) == IF a = 1 THEN R[1] ELSE Force2(MAdd(SumM(a - 1), R[a]))
        st0 == [B |-> Force([a \in 1..k |-> Force([f \in 1..n |-> sols[f].beta[a]])]), R |-> R, S |-> IF m.hat THEN SumM(k) ELSE << >>,
                bws |-> NumsOf(c, "bws"), fixed |-> {a \in 1..k : InitOf(c, a) = "spec"}, still |-> [a \in 1..k |-> 0], nxt |-> 1, ph |-> "gwr", seen |-> << >>,
                sweep |-> 0, last |-> R0, rss |-> R0, got |-> {}, free |-> FALSE, failed |-> FALSE, bad |-> {}]
        end == FoldLeft(LAMBDA st, row : RowStep(m, st, row), st0, rows)
        tol == RAdd(RDec("1e-7"), RMul(RInt(1000), MaxTol(sols)))
        sh == IF m.hat THEN TracePair(end.S) ELSE << R0, R0 >>
        yn == RSqrt(Sumsq(d.y))
        \* the iteration multiplies rounding and reported bandwidths have six decimals unless they are adaptive or given
        exact == \A a \in 1..k : InitOf(c, a) = "spec" \/ At(ListOf(c, "ads"), a) = "1"
        t == IF exact THEN tol ELSE RAdd(tol, RDec("1e-4"))
        fitB == Force([a \in 1..k |-> Force([f \in 1..n |-> RMul(X[f][a], r.betas[f][a])])])
        fitS == Force([a \in 1..k |-> Force([f \in 1..n |-> RMul(X[f][a], end.B[a][f])])])
        colB == Force([a \in 1..k |-> MCol(r.betas, a)])
        dg == r.diag[1]
        edf == RAdd(RSub(RInt(n), RMul(R2, sh[1])), sh[2])
    IN IF g0.kind = "none" THEN When(e.threw, "a run without an initial model fails")
       ELSE IF ~judged THEN {}
       ELSE IF e.threw THEN When(Len(rows) > 0 /\ rows[Len(rows)][1] # RInt(8) /\ (end.free \/ Refit(m, end, k).failed \/ Refit(m, end, k).free \/ ~exact \/ end.ph \in {"gwr", "init", "sel", "between"}),
                                "a solvable fit does not fail")
       ELSE When(MShape(r.betas, n, k) /\ r.ret = r.betas, "one coefficient row per sample")
            \cup end.bad
            \cup When(end.free \/ end.got = {a \in 1..k : InitOf(c, a) = "null"}, "initial bandwidths are searched for the variables without one")
            \cup When(rows[Len(rows)][1] = RInt(8), "the run reports its end")
            \cup When(end.free \/ end.sweep = m.maxit \/ (end.sweep > 0 /\ RLe(end.last, RAdd(m.thr, Six))), "sweeps go on until the threshold or the limit")
            \cup When(\A a \in 1..k : IF InitOf(c, a) = "spec" THEN r.bws[1][a] = NumsOf(c, "bws")[a] ELSE end.free \/ SixNear(r.bws[1][a], end.bws[a]),
                      "bandwidths are the configured or selected ones")
            \cup (IF end.free \/ ~MShape(r.betas, n, k) THEN {} ELSE
                  When(\A a \in 1..k : VClose(fitB[a], fitS[a], t, RMul(t, RMul(RDec("1e-1"), VMaxAbs(d.y)))) /\ VClose(colB[a], end.B[a], t, RDec("1e-9")), "coefficients are those of the back-fitting")
                  \cup { q \in DiagClauses(X, d.y, r.betas, << RDiv(RSub(RAdd(RInt(n), dg[4]), dg[5]), R2), R0 >>, dg) : q \in {"diagnostic RSS", "diagnostic R2"} }
                  \cup When(RNear(dg[4], RSub(RMul(R2, sh[1]), sh[2]), t, RMul(RInt(10), t)), "effective number of parameters")
                  \cup When(RNear(dg[5], edf, t, RMul(RInt(10), t)), "effective degrees of freedom")
                  \cup (IF exact THEN DiagClauses(X, d.y, r.betas, sh, << dg[1], dg[2], dg[3], RSub(RMul(R2, sh[1]), sh[2]), edf, dg[6], dg[7] >>) ELSE {}))
MgwrClauses(d, c, e) == CASE e.call = "fit" -> MgwrFit(d, c, e) [] OTHER -> {}
=============================================================================
