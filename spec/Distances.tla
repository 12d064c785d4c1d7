----------------------------- MODULE Distances -----------------------------
(***************************************************************************)
(* The metrics.  A distance object is a record                             *)
(*   kind  "crs" | "mink" | "one" | "st"                                   *)
(*   geo   great-circle instead of planar (crs, mink, the space part of st)*)
(*   ord, theta   Minkowski order and axis rotation                        *)
(*   sp    kind of the space part of st ("crs" or "mink")                  *)
(*   lambda, angle, oblique   mixing of space and time                     *)
(*   fp, dp   focus and data points (rows of 2), ft, dt times or 1-D coordinates *)
(***************************************************************************)
EXTENDS LinAlg

Sq(x) == RMul(x, x)
Pi == RDec("3.14159265358979323846")

Euclid(p, q) == RSqrt(RAdd(Sq(RSub(p[1], q[1])), Sq(RSub(p[2], q[2]))))

\* WGS-84 great-circle distance in km between <<lon, lat>> pairs in degrees (flattening-corrected)
Coincident(p, q) ==
    /\ RLt(RAbs(RSub(p[2], q[2])), RDec("1e-8"))
    /\ \/ RLt(RAbs(RSub(p[1], q[1])), RDec("1e-8"))
       \/ RLt(RAbs(RSub(RAdd(RAbs(p[1]), RAbs(q[1])), RInt(360))), RDec("1e-8"))
GreatCircle(p, q) ==
    IF Coincident(p, q) THEN R0
    ELSE LET rad(x) == RDiv(RMul(x, Pi), RInt(180))
             F == RDiv(RAdd(rad(p[2]), rad(q[2])), R2)
             G == RDiv(RSub(rad(p[2]), rad(q[2])), R2)
             L == RDiv(RSub(rad(p[1]), rad(q[1])), R2)
             sG == Sq(RSin(G))  cG == Sq(RCos(G))
             sF == Sq(RSin(F))  cF == Sq(RCos(F))
             sL == Sq(RSin(L))  cL == Sq(RCos(L))
             S == RAdd(RMul(sG, cL), RMul(cF, sL))
             C == RAdd(RMul(cG, cL), RMul(sF, sL))
             w == RAtan(RSqrt(RDiv(S, C)))
             R == RDiv(RSqrt(RMul(S, C)), w)
             D == RMul(RMul(R2, w), RDec("6378.137"))
             f == RDiv(R1, RDec("298.257223563"))
             H1 == RDiv(RSub(RMul(RInt(3), R), R1), RMul(R2, C))
             H2 == RDiv(RAdd(RMul(RInt(3), R), R1), RMul(R2, S))
         IN RMul(D, RSub(RAdd(R1, RMul(f, RMul(H1, RMul(sF, cG)))), RMul(f, RMul(H2, RMul(cF, sG)))))

Rotate(p, th) == << RSub(RMul(p[1], RCos(th)), RMul(p[2], RSin(th))),
                    RAdd(RMul(p[1], RSin(th)), RMul(p[2], RCos(th))) >>
Minkowski(p, q, ord, th) ==
    LET turn == th # R0 /\ ord # R2
        a == IF turn THEN Rotate(p, th) ELSE p
        b == IF turn THEN Rotate(q, th) ELSE q
        x == RAbs(RSub(a[1], b[1]))
        y == RAbs(RSub(a[2], b[2]))
    IN CASE ord = R1         -> RAdd(x, y)
         [] ord = RInt(-1)   -> RMax(x, y)
         [] OTHER            -> RPow(RAdd(RPow(x, ord), RPow(y, ord)), RDiv(R1, ord))

Planar(D, kind, p, q) ==
    IF D.geo THEN GreatCircle(q, p)
    ELSE IF kind = "mink" THEN Minkowski(p, q, D.ord, D.theta)
    ELSE Euclid(p, q)

\* samples later than the focus are out of reach
Unreachable == RDec("10000000000000")
SpaceTime(D, s, t) ==
    LET la == D.lambda
        u  == IF la = R1 THEN RAbs(t) ELSE t
        mix == RMul(R2, RSqrt(RMul(RMul(la, RSub(R1, la)), RMul(s, u))))
    IN IF RLt(u, R0) THEN Unreachable
       ELSE RAdd(RAdd(RMul(la, s), RMul(RSub(R1, la), u)),
                 IF D.oblique THEN RMul(mix, RAbs(RCos(D.angle))) ELSE mix)

NFocus(D) == IF D.kind = "one" THEN Len(D.ft) ELSE Len(D.fp)
NData(D)  == IF D.kind = "one" THEN Len(D.dt) ELSE Len(D.dp)

\* distance from focus f (1-based) to data point j
DistTo(D, f, j) ==
    CASE D.kind = "one" -> RAbs(RSub(D.dt[j], D.ft[f]))
      [] D.kind = "st"  -> SpaceTime(D, Planar(D, D.sp, D.fp[f], D.dp[j]), RSub(D.ft[f], D.dt[j]))
      [] OTHER          -> Planar(D, D.kind, D.fp[f], D.dp[j])
DistVec(D, f) == Force([j \in 1..NData(D) |-> DistTo(D, f, j)])

\* how exactly a metric is determined: relative part, and an absolute part scaled by the coordinates
DistTol(D) == IF D.geo THEN RDec("1e-8") ELSE RDec("1e-11")
CoordScale(D) == RAdd(RAdd(MMaxAbs(D.fp), MMaxAbs(D.dp)), RAdd(VMaxAbs(D.ft), VMaxAbs(D.dt)))
DistAbs(D) ==
    \* differences of rounded coordinates, then square roots of their products in the space-time case
    IF D.kind = "st" THEN RMul(RDec("1e-13"), RAdd(R1, CoordScale(D)))
    ELSE IF D.geo THEN RDec("1e-6") ELSE RMul(RDec("1e-13"), RAdd(R1, CoordScale(D)))
=============================================================================
