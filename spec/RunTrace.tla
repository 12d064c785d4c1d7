------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Every algorithm as one abstract machine: an object holds a              *)
(* configuration; an undisturbed call computes a result that is a function *)
(* of the configuration and the call's arguments alone; a call the caller  *)
(* asks to stop ends terminated, with matrices of the documented shapes,   *)
(* and leaves no trace in later results.  The function itself is           *)
(* uninterpreted here: its value becomes known with the first undisturbed  *)
(* call and every later call with the same configuration, on whatever      *)
(* object and after whatever history, must agree.                          *)
(*                                                                         *)
(* IOEnv.ASPECT: "config" forgets nothing of the configuration;            *)
(* "parallel" takes the mode of execution out of it.                       *)
(***************************************************************************)
EXTENDS TraceLib, Json, IOUtils

VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, j) == Scn[i].tr[j]
When(c, name) == IF c THEN {} ELSE {name}
Restrict(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]

Aspect == IOEnv.ASPECT
Modes == {"par", "thr", "ws"}
(* ---- what a call writes back into the configuration ----               *)
(* A bandwidth, mixing factor or variable subset selected by a fit stays   *)
(* with the object until its caller sets the weights, or the data, anew:   *)
(* it belongs to the configuration that later results are a function of.   *)
Told(e) == {e.told[i] : i \in 1..Len(e.told)}
DataKeys == {"n", "k", "seed", "pts", "xk", "yk", "tk", "ng"}
WeightKeys == {"kern", "ad", "bw", "dk", "geo", "ord", "theta", "sp", "lambda", "angle", "bws", "ads", "kerns"}
Split(c, f) == IF f \in DOMAIN c THEN RSplit(c[f]) ELSE << >>
HasInit(c) == \E i \in 1..Len(Split(c, "inits")) : Split(c, "inits")[i] = "init"
Centred(e) == LET q == Split(e.cfg, "cens") IN {i \in 1..Len(q) : q[i] = "1"}
On(e, f) == GetB(e.cfg, f, "0")
\* w: the tokens an object carries: bw, lam, vars name the call that selected; cens the predictors centred so far
SelBefore(w, e) ==
    Restrict(w, (IF Told(e) \cap WeightKeys # {} THEN {"bw", "lam"} ELSE {})
                \cup (IF Told(e) \cap DataKeys # {} THEN {"vars", "cens"} ELSE {}))
\* what of it the call depends on
SelUsed(w, e) ==
    Restrict(w, {"vars", "cens"} \cup
        (IF e.call # "fit" THEN {}
         ELSE CASE e.alg \in {"basic", "robust", "lcr", "ggwr"} -> IF On(e, "auto") THEN {"bw"} ELSE {}
                [] e.alg = "gtwr" -> IF On(e, "auto") /\ "lam" \notin DOMAIN w THEN {"bw"} ELSE {}
                [] e.alg = "mgwr" -> IF HasInit(e.cfg) THEN {} ELSE {"bw"}
                [] OTHER -> {}))
SelAfter(w, e, at) ==
    IF e.call # "fit" THEN w
    ELSE (IF On(e, "auto") \/ e.alg = "mgwr" THEN [bw |-> at] ELSE << >>)
         @@ (IF On(e, "alam") THEN [lam |-> at] ELSE << >>)
         @@ (IF On(e, "avar") THEN [vars |-> at] ELSE << >>)
         @@ (IF e.alg = "mgwr" THEN [cens |-> Centred(e) \cup Get(w, "cens", {})] ELSE << >>)
         @@ w
(* The library keeps the selected columns as its design matrix, and the    *)
(* centred ones of a multiscale model: what follows is judged apart.       *)
Marred(w, e) == IF "vars" \in DOMAIN w THEN "after a variable selection, "
                ELSE IF ~(Get(w, "cens", {}) \subseteq Centred(e)) THEN "after centring, " ELSE ""

Key(w, e) == [sel |-> Restrict(SelUsed(w, e), {"vars", "cens"}), alg |-> e.alg, call |-> e.call,
           arg |-> Restrict(e.arg, {"id", "stop", "sticky", "sweep", "stage", "deaf", "log", "jitter"}),
           cfg |-> Restrict(e.cfg, IF Aspect = "parallel" THEN Modes ELSE {})]
\* multiscale models centre their predictors again, which may change the last bits
Exact(e) == Aspect # "parallel" /\ Get(e.cfg, "par", "serial") = "serial" /\ e.alg # "mgwr"

(* ---- agreement of two results ---- *)
Top(m) == VMax(<<R0>> \o [i \in 1..Len(m) |-> VMax(<<R0>> \o [j \in 1..Len(m[i]) |-> IF RFinite(m[i][j]) THEN RAbs(m[i][j]) ELSE R0])])
ByEntry == {"diag", "gdiag", "glm", "shat", "bwlist"}
AgreeM(f, a, b) == MNear(a, b, RDec("1e-7"), IF f \in ByEntry THEN RDec("1e-9") ELSE RAdd(RDec("1e-300"), RMul(RDec("1e-9"), RMax(Top(a), Top(b)))))
\* the hat matrix is one scratch row unless it is kept
Kept(e) == On(e, "hat") \/ (e.alg \in {"basic", "robust"} /\ On(e, "storeS"))
\* in which fields two results differ
Differ(a, b, exact) ==
    IF DOMAIN a # DOMAIN b THEN {"reported fields"}
    ELSE { f \in DOMAIN a : ~(IF exact THEN a[f] = b[f] ELSE AgreeM(f, a[f], b[f])) }
(* Two selections may part where the scores they compare are equal up to rounding. *)
Tie(ev, n) == \E i, j \in 1..n : i < j /\ ev[i][1] # ev[j][1] /\ RNear(ev[i][2], ev[j][2], RDec("1e-9"), R0)
Parted(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..n : Len(a[i]) < 2 \/ Len(b[i]) < 2 \/ ~RNear(a[i][1], b[i][1], RDec("1e-9"), R0)}
        m == IF D = {} THEN n ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1
    IN (D # {} \/ Len(a) # Len(b)) /\ (\A i \in 1..m : Len(a[i]) >= 2) /\ Tie(a, m)
\* a prediction of density regression leaves the coefficients of the last fit in place
Aside(e) == IF e.alg = "gwdr" /\ e.call = "predict" THEN {"betas"} ELSE {}
(* The simplex of density regression goes its own way after a rounding     *)
(* difference: the scores of the candidates both runs tried must agree.    *)
Wild(e) == e.alg = "gwdr" /\ On(e, "auto") /\ ~Exact(e)
SameRow(a, b) == Len(a) = Len(b) /\ \A i \in 1..(Len(a) - 1) : a[i] = b[i]
Together(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                      D == {i \in 1..n : ~SameRow(a[i], b[i])}
                  IN IF D = {} THEN n ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1
\* with little weight left, local systems are near singular and their scores all rounding
Firm(e, r) == /\ \A j \in 1..(Len(r) - 1) : RLe(RInt(5), r[j])
              /\ \A q \in {Split(e.cfg, "kerns")[i] : i \in 1..Len(Split(e.cfg, "kerns"))} : q \in {"gaussian", "exponential"}
WildClauses(e, a, b) == When(\A i \in 1..Together(a, b) : Firm(e, a[i]) => RNear(a[i][Len(a[i])], b[i][Len(a[i])], RDec("1e-5"), RDec("1e-4")), "the same scores of candidate bandwidths")
\* scores are reported with six decimals
SameReports(e, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ ((Wild(e) => Firm(e, a[i])) => \A j \in 1..Len(a[i]) : RNear(a[i][j], b[i][j], RDec("1e-6"), RDec("1e-5")))
\* every process of a distributed run keeps its own rows of the hat matrix
Distributed(e) == "dist" \in DOMAIN e
AgreeClauses(k, e) ==
    IF Wild(e) /\ (Len(k.evals) # Len(e.evals) \/ Together(k.evals, e.evals) < Len(e.evals)) THEN WildClauses(e, k.evals, e.evals)
    ELSE IF k.threw # e.threw THEN {"fails exactly when it fails elsewhere"}
    ELSE IF e.threw \/ (~Exact(e) /\ Parted(k.evals, e.evals)) THEN {}
    ELSE { "the same result: " \o f : f \in Differ(k.res, e.res, Exact(e)) \ (Aside(e) \cup (IF Kept(e) THEN {} ELSE {"S"}) \cup (IF Distributed(e) THEN {"S", "C"} ELSE {})) }
         \cup When(SameReports(e, k.evals, e.evals), "the same scores of candidate bandwidths")

(* ---- shapes ---- *)
\* the documented dimensions of a reported matrix; -1 for any
Dim(e, f, n, k) ==
    LET dim == GetI(e.cfg, "dim", "2")
        pairs == IF GetB(e.cfg, "first", "0") THEN k - 1 ELSE (k * (k - 1)) \div 2
        ln == IF "loc" \in DOMAIN e.res THEN Len(e.res.loc) ELSE n
    IN CASE f = "ret" -> IF e.call = "predict" THEN <<ln, k>> ELSE <<n, k>>
         [] f = "betas" -> IF e.call = "predict" THEN <<-1, k>> ELSE <<n, k>>
         [] f = "se" -> <<n, k>>
         [] f \in {"mean", "var", "sd", "skew", "cv", "median", "iqr", "qi"} /\ e.alg = "gwss" -> <<n, k>>
         [] f \in {"cov", "corr", "scorr"} -> <<n, pairs>>
         [] f = "sdev" -> <<n, k>>
         [] f = "pv" -> <<n, GetI(e.cfg, "keep", "2")>>
         [] f = "load" -> <<n * GetI(e.cfg, "keep", "2"), k>>
         [] f \in {"res", "probs"} -> <<n, -1>>
         [] f \in {"pmax", "entropy", "group"} -> <<n, 1>>
         [] OTHER -> <<-1, -1>>
Rows(m) == Len(m)
ShapeOk(m, d) == (d[1] = -1 \/ Rows(m) = d[1]) /\ (d[2] = -1 \/ \A i \in 1..Len(m) : Len(m[i]) = d[2])
Empty(m) == Len(m) = 0 \/ \A i \in 1..Len(m) : Len(m[i]) = 0
ShapeClauses(e, x) ==
    LET n == x.n k == x.k IN
    { "documented dimensions: " \o f : f \in { g \in (DOMAIN e.res) \ Aside(e) : ~ShapeOk(e.res[g], Dim(e, g, n, k)) /\ ~(g # "ret" /\ Empty(e.res[g])) } }

(* ---- one call ---- *)
CallOk(e) == e.call \in {"fit", "predict", "run"}
Stopped(e) == e.stopped > 0
StopClauses(x, e) ==
    When(e.status = "terminated", "a stopped run is terminated")
    \cup When(~e.threw, "a stopped run does not fail")
    \cup When(\A i \in 1..Len(e.stages) : ~e.stages[i].late, "no stage is announced after the stop")
    \cup (IF e.threw \/ On(e, "avar") THEN {} ELSE ShapeClauses(e, x))
FreeClauses(x, e, narrow) ==
    IF e.threw THEN {} ELSE
    When(e.status = "success", "an undisturbed run succeeds")
    \cup (IF On(e, "avar") \/ narrow THEN {} ELSE ShapeClauses(e, x))

\* does the call end undisturbed with this configuration?  Unknown configurations may fail on their own.
Known(x, key) == {r \in x.known : r.key = key}
Step(x, e) ==
    CASE e.ev = "data" -> [st |-> [x EXCEPT !.n = Len(e.y), !.k = MCols(e.x)], bad |-> {}]
      [] e.ev = "run" ->
            LET w == SelBefore(Get(x.sel, e.id, << >>), e)
                mar == Marred(w, e) key == Key(w, e) K == Known(x, key)
                y == [x EXCEPT !.sel = (e.id :> SelAfter(w, e, l)) @@ @] IN
            IF Stopped(e) THEN [st |-> y, bad |-> IF mar = "" /\ CallOk(e) /\ K # {} /\ \A r \in K : ~r.threw THEN StopClauses(x, e) ELSE {}]
            ELSE LET r1 == [key |-> key, threw |-> e.threw, res |-> e.res, evals |-> e.evals] IN
                 [st |-> IF mar # "" THEN IF Aspect # "config" THEN y ELSE [y EXCEPT !.marred = @ \cup {[r |-> r1, mar |-> mar]}] ELSE IF K = {} THEN [y EXCEPT !.known = @ \cup {r1}] ELSE y,
                  bad |-> IF mar # "" /\ Aspect # "config" THEN {} ELSE {mar \o b : b \in (IF CallOk(e) THEN FreeClauses(x, e, mar # "") ELSE {}) \cup UNION {AgreeClauses(r, e) : r \in K}}
                          \cup (IF mar # "" THEN {} ELSE UNION {{m.mar \o b : b \in AgreeClauses(m.r, e)} : m \in {q \in x.marred : q.r.key = key}})]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]

Init == s \in 1..Len(Scn) /\ l = 1 /\ st = [known |-> {}, marred |-> {}, sel |-> << >>, n |-> 0, k |-> 0]
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Ev(s, l)) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
