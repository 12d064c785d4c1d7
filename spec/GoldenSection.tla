--------------------------- MODULE GoldenSection ---------------------------
(***************************************************************************)
(* Automatic bandwidth selection: golden-section narrowing of a range.     *)
(* A search state is [lo, up, xL, xU, x1, x2, d, f1, f2, iter]; Begin and Advance  *)
(* give the bandwidths to evaluate, the result is the better of the last   *)
(* two.  Used by the exhaustive model GoldenModel and by SelectTrace.      *)
(***************************************************************************)
EXTENDS LinAlg
Ratio == RDiv(RSub(RSqrt(RInt(5)), R1), R2)
Eps == RDec("1e-4")
MaxIter == 100
Huge == RDec("1.7976931348623157e308")

Begin(lo, up, ad) ==
    LET d == RMul(Ratio, RSub(up, lo)) IN
    [lo |-> lo, up |-> up, xL |-> lo, xU |-> up, d |-> d, iter |-> 0,
     x1 |-> IF ad THEN RFloor(RAdd(lo, d)) ELSE RAdd(lo, d),
     x2 |-> IF ad THEN RRound(RSub(up, d)) ELSE RSub(up, d)]
\* after the first two evaluations f1, f2 are in the state
GoesOn(g) == /\ RLt(Eps, RAbs(g.d))
             /\ RLt(Eps, RAbs(RSub(g.f2, g.f1)))
             /\ g.iter < MaxIter
Right(g) == RLt(g.f1, g.f2)     \* the larger bandwidth is better
\* the next point to evaluate, given which side is kept; rounding must not lead out of the range
NextX(g, ad) ==
    LET d == RMul(Ratio, g.d) IN
    IF Right(g) THEN RMin(IF ad THEN RRound(RAdd(g.x2, d)) ELSE RAdd(g.x2, d), g.up)
    ELSE RMax(IF ad THEN RFloor(RSub(g.x1, d)) ELSE RSub(g.x1, d), g.lo)
Advance(g, ad, f) ==
    LET d == RMul(Ratio, g.d) x == NextX(g, ad) IN
    IF Right(g)
    THEN [g EXCEPT !.d = d, !.iter = g.iter + 1, !.xL = g.x2, !.x2 = g.x1, !.x1 = x, !.f2 = g.f1, !.f1 = f]
    ELSE [g EXCEPT !.d = d, !.iter = g.iter + 1, !.xU = g.x1, !.x1 = g.x2, !.x2 = x, !.f1 = g.f2, !.f2 = f]
Best(g) == IF RLt(g.f1, g.f2) THEN g.x1 ELSE g.x2
=============================================================================
