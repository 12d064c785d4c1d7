---------------------------- MODULE HandleTrace ----------------------------
(***************************************************************************)
(* Value semantics of weighting configurations, checked on recorded        *)
(* histories.  State: the value every slot should have; after every        *)
(* operation the harness reports what every slot says about itself, and    *)
(* each report has to match the value.                                     *)
(***************************************************************************)
EXTENDS Weights, Distances, Json, IOUtils, TLC

VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, j) == Scn[i].tr[j]

NoW == [k |-> "none"]
NoD == [kind |-> "none"]
Empty == [w |-> NoW, d |-> NoD]
\* slots 1..3: configurations; 4: the one inside a single-scale model; 5, 6: those inside a multiscale model
Init0 == [i \in 1..6 |-> Empty]

WOf(e) == [k |-> e.k, ad |-> e.ad, bw |-> e.bw]
DOf(e) == [kind |-> e.kind, geo |-> e.geo, ord |-> e.ord, theta |-> e.theta, sp |-> e.sp, lambda |-> e.lambda,
           angle |-> e.angle, oblique |-> e.oblique, pts |-> FALSE,
           fp |-> << >>, dp |-> << >>, ft |-> << >>, dt |-> << >>]

Apply(x, e) ==
    LET h == e.h g == e.g IN
    CASE e.op = "new"    -> [x EXCEPT ![h] = [w |-> WOf(e), d |-> DOf(e)]]
      [] e.op = "new0"   -> [x EXCEPT ![h] = Empty]
      [] e.op \in {"copy", "cctor", "give", "take"} -> [x EXCEPT ![h] = x[g]]
      [] e.op \in {"move", "mctor"} -> IF h = g THEN x ELSE [x EXCEPT ![h] = x[g], ![g] = Empty]
      [] e.op = "giveall" -> [x EXCEPT ![5] = x[h], ![6] = x[g]]
      [] e.op = "setw"   -> [x EXCEPT ![h].w = WOf(e)]
      [] e.op = "setd"   -> [x EXCEPT ![h].d = DOf(e)]
      [] e.op = "setwfrom" -> IF x[g].w = NoW THEN x ELSE [x EXCEPT ![h].w = x[g].w]
      [] e.op = "setdfrom" -> IF x[g].d = NoD THEN x ELSE [x EXCEPT ![h].d = x[g].d]
      [] e.op = "mutbw"  -> IF x[h].w = NoW THEN x ELSE [x EXCEPT ![h].w.bw = e.bw]
      [] e.op = "mutk"   -> IF x[h].w = NoW THEN x ELSE [x EXCEPT ![h].w.k = e.k]
      [] e.op = "mutad"  -> IF x[h].w = NoW THEN x ELSE [x EXCEPT ![h].w.ad = e.ad]
      [] e.op = "mutgeo" -> IF x[h].d.kind # "crs" THEN x ELSE [x EXCEPT ![h].d.geo = e.geo]
      [] e.op = "mutord" -> IF x[h].d.kind # "mink" THEN x ELSE [x EXCEPT ![h].d.ord = e.ord, ![h].d.theta = e.theta]
      [] e.op = "make"   -> IF x[h].d = NoD THEN x
                            ELSE [x EXCEPT ![h].d.fp = e.fp, ![h].d.dp = e.dp, ![h].d.ft = e.ft, ![h].d.dt = e.dt,
                                           ![h].d.pts = TRUE]
      [] e.op = "nop"    -> x

\* what slot i reports, o, against its value c
SlotBad(c, o) ==
    IF o.valid # (c.w # NoW /\ c.d # NoD) THEN {"validity of a configuration"}
    ELSE (IF c.w = NoW \/ ~o.hasw THEN (IF o.hasw # (c.w # NoW) THEN {"weight present"} ELSE {})
          ELSE IF o.k = c.w.k /\ o.ad = c.w.ad /\ o.bw = c.w.bw THEN {} ELSE {"weight parameters"})
      \cup (IF o.kind = c.d.kind THEN {} ELSE {"distance kind"})
      \cup (IF ~o.valid THEN {}
            ELSE IF ~c.d.pts THEN (IF o.threw THEN {} ELSE {"no points, no weights"})
            ELSE IF o.threw THEN {"weights available"}
            ELSE UNION {LET ds == DistVec(c.d, f) IN
                     IF ~Usable(c.w, ds) THEN {}
                     ELSE IF VNear(o.wv[f], WeightVec(c.w, ds), RDec("1e-7"), RDec("1e-7"))
                             \/ c.w.k = "boxcar"  \* discontinuous: judged through the distances below
                          THEN {} ELSE {"weights of a configuration"} : f \in 1..Len(o.wv)}
              \cup UNION {IF VNear(o.dv[f], DistVec(c.d, f), DistTol(c.d), DistAbs(c.d)) THEN {}
                          ELSE {"distances of a configuration"} : f \in 1..Len(o.dv)}
              \cup (LET ext(E(_)) == E(Force([f \in 1..NFocus(c.d) |-> E(DistVec(c.d, f))])) IN
                    IF RNear(o.mx, ext(VMax), DistTol(c.d), DistAbs(c.d)) /\ RNear(o.mn, ext(VMin), DistTol(c.d), DistAbs(c.d))
                    THEN {} ELSE {"largest and smallest distance of a configuration"}))

Step(x, e) ==
    CASE e.ev = "op" -> [st |-> Apply(x, e), bad |-> {}]
      [] e.ev = "obs" -> [st |-> x, bad |-> UNION {SlotBad(x[i], e.slots[i]) : i \in 1..6}]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]

Init == s \in 1..Len(Scn) /\ l = 1 /\ st = Init0
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Ev(s, l)) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
