------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* What the trace specifications of the algorithms share: reading the      *)
(* recorded configuration, and the weights it stands for.                  *)
(***************************************************************************)
EXTENDS Weights, Distances, Regression, TLC

Has(c, k) == k \in DOMAIN c
Get(c, k, def) == IF k \in DOMAIN c THEN c[k] ELSE def
GetR(c, k, def) == RDec(Get(c, k, def))
GetI(c, k, def) == RToInt(RDec(Get(c, k, def)))
GetB(c, k, def) == Get(c, k, def) \in {"1", "TRUE", "true"}

\* the distance object a configuration stands for, from foci F (times FT) to the samples of d
DistOf(c, F, FT, d) ==
    [kind |-> Get(c, "dk", "crs"), geo |-> GetB(c, "geo", "0"), ord |-> GetR(c, "ord", "2"), theta |-> GetR(c, "theta", "0"),
     sp |-> Get(c, "sp", "crs"), lambda |-> GetR(c, "lambda", "0"), angle |-> GetR(c, "angle", "0"),
     oblique |-> Has(c, "angle") /\ RLt(RDec("1e-12"), RAbs(RSub(GetR(c, "angle", "0"), RDec("1.5707963267948966")))),
     fp |-> F, dp |-> d.coords, ft |-> FT, dt |-> d.t]
WeightOf(c, bw) == [k |-> Get(c, "kern", "gaussian"), ad |-> GetB(c, "ad", "1"), bw |-> bw]
CfgBw(c) == GetR(c, "bw", "10")

\* distances of all foci, and the weights they give
DistRows(D) == Force([f \in 1..NFocus(D) |-> DistVec(D, f)])
WeightsFor(w, dr) == Force([f \in 1..Len(dr) |-> WeightVec(w, dr[f])])
UsableAll(w, dr) == \A f \in 1..Len(dr) : Usable(w, dr[f])
\* a boxcar weight at the very edge of a bandwidth that is not reproducible exactly may be either value
EdgeSafe(w, dr) ==
    \/ w.k # "boxcar"
    \/ \A f \in 1..Len(dr) : LET b == EffBw(w, dr[f]) IN
          \A j \in 1..Len(dr[f]) : dr[f][j] = b \/ ~RNear(dr[f][j], b, RDec("1e-10"), R0)
\* the samples' own coordinates as foci
SelfDist(c, d) == DistRows(DistOf(c, d.coords, d.t, d))

M11(m) == m[1][1]
ColVec(m) == [i \in 1..Len(m) |-> m[i][1]]
=============================================================================
