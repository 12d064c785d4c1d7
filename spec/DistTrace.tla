----------------------------- MODULE DistTrace -----------------------------
(***************************************************************************)
(* Trace specification of distance objects and kernel weights: replays a   *)
(* recorded history of operations against the state machine below and      *)
(* prints every step whose observation the specification does not allow.   *)
(***************************************************************************)
EXTENDS Weights, Distances, Json, IOUtils, TLC

VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, j) == Scn[i].tr[j]

NoObj == [kind |-> "none"]
\* pts: "no" never given or taken back, "yes", "maybe" after a refused replacement
Init0 == [D |-> NoObj, pts |-> "no"]

\* observations of a distance query in state x
QueryOk(x, e) ==
    LET D == x.D IN
    IF x.pts = "no" \/ (x.pts = "yes" /\ e.f >= NFocus(D)) THEN e.threw
    ELSE IF e.threw THEN x.pts = "maybe"
    ELSE /\ e.f < NFocus(D)
         /\ VNear(e.v, DistVec(D, e.f + 1), DistTol(D), DistAbs(D))
ExtremeOk(x, e, Ext(_)) ==
    LET D == x.D IN
    IF x.pts = "no" THEN e.threw
    ELSE IF e.threw THEN x.pts = "maybe"
    ELSE \* exactly the extreme of what the object itself returned, and that is near the specified one
         /\ e.v = e.own
         /\ RNear(e.v, Ext(Force([f \in 1..NFocus(D) |-> Ext(DistVec(D, f))])), DistTol(D), DistAbs(D))

\* the weights of a configuration over recorded distances
Step(x, e) ==
    CASE e.ev = "new" ->
            [st |-> [D |-> [kind |-> e.kind, geo |-> e.geo, ord |-> e.ord, theta |-> e.theta, sp |-> e.sp,
                            lambda |-> e.lambda, angle |-> e.angle, oblique |-> e.oblique,
                            fp |-> << >>, dp |-> << >>, ft |-> << >>, dt |-> << >>], pts |-> "no"], bad |-> {}]
      [] e.ev = "make" ->
            [st |-> [D |-> [x.D EXCEPT !.fp = e.fp, !.dp = e.dp, !.ft = e.ft, !.dt = e.dt], pts |-> "yes"],
             bad |-> IF e.threw THEN {"well-formed points are accepted"} ELSE {}]
      [] e.ev = "badmake" ->
            [st |-> [x EXCEPT !.pts = IF x.pts = "no" THEN "no" ELSE "maybe"],
             bad |-> IF e.threw THEN {} ELSE {"malformed points raise an error"}]
      [] e.ev = "set" ->
            [st |-> [x EXCEPT !.D = CASE e.what = "geo" -> [x.D EXCEPT !.geo = e.b]
                                      [] e.what = "ord" -> [x.D EXCEPT !.ord = e.v]
                                      [] e.what = "theta" -> [x.D EXCEPT !.theta = e.v]
                                      [] e.what = "lambda" ->
                                           IF RLe(R0, e.v) /\ RLe(e.v, R1) THEN [x.D EXCEPT !.lambda = e.v] ELSE x.D],
             bad |-> IF e.what = "lambda" /\ e.threw # ~(RLe(R0, e.v) /\ RLe(e.v, R1))
                     THEN {"mixing factor outside [0,1] is refused, inside accepted"} ELSE {}]
      [] e.ev = "clone" -> [st |-> x, bad |-> {}]
      [] e.ev = "dist" -> [st |-> x, bad |-> IF QueryOk(x, e) THEN {} ELSE {"distances follow the metric"}]
      [] e.ev = "max"  -> [st |-> x, bad |-> IF ExtremeOk(x, e, VMax) THEN {} ELSE {"largest distance"}]
      [] e.ev = "min"  -> [st |-> x, bad |-> IF ExtremeOk(x, e, VMin) THEN {} ELSE {"smallest distance"}]
      [] e.ev = "w" ->
            LET w == [k |-> e.k, ad |-> e.ad, bw |-> e.bw] IN
            [st |-> x, bad |-> IF ~Usable(w, e.d) THEN {} ELSE WeightClauses(w, e.d, e.w)]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]

Init == s \in 1..Len(Scn) /\ l = 1 /\ st = Init0
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Ev(s, l)) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
