------------------------------ MODULE AlgTrace ------------------------------
(***************************************************************************)
(* Trace specification of the algorithms.  The state is the data set of    *)
(* each object; every call's observations are decided from the data and    *)
(* the configuration alone.                                                *)
(***************************************************************************)
EXTENDS RobustSpec, LcrSpec, GtwrSpec, MgwrSpec, GgwrSpec, ScalSpec, SummarySpec, Json, IOUtils

VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, j) == Scn[i].tr[j]

\* the final fit of an algorithm with bandwidth bw on the variables of X
FitBy(alg, d, c, bw, X, e) ==
    CASE alg = "robust" -> RobustClauses(d, c, bw, X, e)
      [] OTHER -> FitClauses(d, c, bw, X, e)

RunClauses(d, e) ==
    LET c == e.cfg a == e.alg IN
    CASE a = "lcr" -> LcrClauses(d, c, e)
      [] a = "mgwr" -> MgwrClauses(d, c, e)
      [] a = "ggwr" -> GgwrClauses(d, c, e)
      [] a = "scal" -> ScalClauses(d, c, e)
      [] a = "gwdr" -> GwdrClauses(d, c, e)
      [] a = "gtwr" -> GtwrClauses(d, c, e)
      [] a = "gwss" -> GwssClauses(d, c, e)
      [] a = "gwpca" -> GwpcaClauses(d, c, e)
      [] a = "gwda" -> GwdaClauses(d, c, e)
      [] e.call = "fit" /\ (GetB(c, "auto", "0") \/ GetB(c, "avar", "0")) ->
              IF e.threw THEN {} ELSE AutoClauses(d, c, e) \cup FitBy(a, d, c, AutoBw(c, e.res), AutoX(d, c, e.res), e)
      [] e.call = "fit" -> FitBy(a, d, c, CfgBw(c), d.x, e)
      [] e.call = "predict" -> PredictClauses(d, c, CfgBw(c), e)
      [] e.call = "crit" -> CritClauses(d, c, e)
      [] e.call = "vcrit" -> VCritClauses(d, c, e)

Step(x, e) ==
    CASE e.ev = "data" -> [st |-> [x EXCEPT ![e.id] = [coords |-> e.coords, x |-> e.x, y |-> e.y, t |-> e.t, lab |-> e.lab]], bad |-> {}]
      [] e.ev = "run" -> [st |-> x, bad |-> RunClauses(x[e.id], e)]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]

Init == s \in 1..Len(Scn) /\ l = 1 /\ st = [i \in 1..3 |-> << >>]
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Ev(s, l)) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
