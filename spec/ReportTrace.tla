---------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* What a caller is told during a run, for every algorithm.                *)
(*                                                                         *)
(* A run is a sequence of stages in an order the algorithm and its         *)
(* configuration determine (Grammar).  Within a stage the caller hears     *)
(* messages, loops counting to their total, and percentages; the reports   *)
(* on candidates of a selection belong to that selection's stage, after    *)
(* its heading, and carry the values the selection records.                *)
(* A stopped or failing run tells a beginning of that story.               *)
(***************************************************************************)
EXTENDS RunTrace, GoldenSection, FiniteSets

(* ---- the stages of a run ---- *)
Opt(c, x) == IF c THEN << x >> ELSE << >>
Var == "Independent variable selection"
Bws == "Bandwidth selection"
Grammar(e) ==
    CASE e.alg = "basic" /\ e.call = "fit" -> << "Initializing" >> \o Opt(On(e, "avar"), Var) \o Opt(On(e, "auto"), Bws) \o << "Model fitting" >>
      [] e.alg = "robust" /\ e.call = "fit" -> << "Initializing" >> \o Opt(On(e, "avar"), Var) \o Opt(On(e, "auto"), Bws) \o << "Model fitting", "Model Diagnostic" >>
      [] e.alg = "lcr" /\ e.call = "fit" -> << "Initializing" >> \o Opt(On(e, "auto"), Bws) \o << "Model fitting", "Model Diagnostic" >>
      [] e.alg = "gtwr" /\ e.call = "fit" -> << "Initializing" >> \o Opt(On(e, "auto"), "Bandwidth optimization") \o Opt(On(e, "alam"), "Lambda optimization") \o << "Model fitting", "Model Diagnostic" >>
      [] e.alg = "ggwr" /\ e.call = "fit" -> << "Initializing" >> \o Opt(On(e, "auto"), Bws) \o << "Preparing", "Calibrating GLM model", "Model fitting", "Model Diagnostic" >>
      [] e.alg = "mgwr" /\ e.call = "fit" -> << "Centering and scaling predictors", "Calculating initial betas", "Initializing", "Calculating initial bandwidths", "Initializing diagnostic matrices", "Model fitting", "Model Diagnostic" >>
      [] e.alg = "gwdr" /\ e.call = "fit" -> << "Initialization" >> \o Opt(On(e, "avar"), Var) \o Opt(On(e, "auto"), Bws) \o << "Model fitting", "Model Diagnostic" >>
      [] e.alg = "scal" /\ e.call = "fit" -> << "Initializing", "Preparing", "Optimizing parameters", "Model fitting", "Model diagnostic" >>
      [] e.alg = "basic" /\ e.call = "predict" -> << "Initialization", "Prediction" >>
      [] e.alg = "ggwr" /\ e.call = "predict" -> << "Preparing", "Prediction" >>
      [] e.alg = "gwss" -> << "Initializing", "Calculating" >>
      [] e.alg = "gwpca" -> << "Initialization", "Solving" >>
      [] OTHER -> << >>
Stages(e) == [i \in 1..Len(e.stages) |-> e.stages[i].name]
Beginning(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Free(e) == ~Stopped(e) /\ ~e.threw
StageClauses(e) ==
    IF Free(e) THEN When(Stages(e) = Grammar(e) \/ (e.alg = "scal" /\ Beginning(Stages(e), Grammar(e))), "the stages in order")
    ELSE When(Beginning(Stages(e), Grammar(e)), "the stages in order")

(* ---- where in the story an entry is ---- *)
IsMsg(x) == x.k = "m"
StageNo(L) ==  \* for every entry, how many stages were announced before
    LET f[i \in 0..Len(L)] == IF i = 0 THEN << >> ELSE LET p == f[i-1] IN
            Append(p, (IF i = 1 THEN 0 ELSE p[i-1]) + (IF L[i].k = "m" /\ L[i].tag = "#stage" THEN 1 ELSE 0))
    IN f[Len(L)]
StageAt(L, N, i) == IF N[i] = 0 THEN "" ELSE LET q == CHOOSE j \in 1..i : N[j] = N[i] /\ L[j].k = "m" /\ L[j].tag = "#stage" IN L[q].rest
Home(tag) == CASE tag = "#variable-criterion" -> {Var}
               [] tag = "#bandwidth-criterion" -> {Bws, "Bandwidth optimization", "Calculating initial bandwidths", "Model fitting"}
               [] tag = "#initial-bandwidth" -> {"Calculating initial bandwidths"}
               [] tag = "#back-fitting" -> {"Model fitting"}
               [] tag = "#lambda-optimization" -> {"Lambda optimization"}
Tags == {"#variable-criterion", "#bandwidth-criterion", "#initial-bandwidth", "#back-fitting", "#lambda-optimization"}
HomeClauses(e, L, N) ==
    { "a report in its own stage: " \o L[i].tag : i \in {j \in 1..Len(L) : L[j].k = "m" /\ L[j].tag \in Tags /\ StageAt(L, N, j) \notin Home(L[j].tag)} }
    \cup When(Grammar(e) = << >> \/ \A i \in 1..Len(L) : L[i].k \in {"p", "q"} => N[i] > 0, "a stage is announced before its progress")

(* ---- severity: failures are errors, everything else is information ---- *)
LevelClauses(L) ==
    { "severity of: " \o (IF L[i].tag = "" THEN "message" ELSE L[i].tag) : i \in {j \in 1..Len(L) : L[j].k = "m" /\ L[j].lv # (IF L[j].tag = "" THEN 3 ELSE 6)} }

(* ---- progress ---- *)
Counts(L, N) == LET I == SelectSeq([i \in 1..Len(L) |-> i], LAMBDA i : L[i].k = "p") IN [i \in 1..Len(I) |-> [a |-> L[I[i]].a, b |-> L[I[i]].b, at |-> N[I[i]]]]
Ended(p) == p.a = p.b
Ordered(P) == \A i \in 1..(Len(P) - 1) : Ended(P[i]) \/ (P[i+1].at = P[i].at /\ P[i+1].b = P[i].b /\ P[i+1].a >= P[i].a)
StagesOf(P) == {P[i].at : i \in 1..Len(P)}
ReachClauses(e, P) ==
    IF Len(P) = 0 THEN {}
    ELSE IF Get(e.cfg, "par", "serial") = "serial"
    THEN When(Ordered(P) /\ Ended(P[Len(P)]), "progress reaches the end of every loop")
    ELSE When(\A w \in StagesOf(P) : \E i \in 1..Len(P) : P[i].at = w /\ Ended(P[i]), "progress reaches the end of every loop")
ProgressClauses(e, L, P) ==
    When(\A i \in 1..Len(P) : 0 <= P[i].a /\ P[i].a <= P[i].b /\ P[i].b > 0, "progress between zero and the total")
    \cup When(\A i \in 1..Len(L) : L[i].k = "q" => RLe(R0, L[i].p) /\ RLe(L[i].p, R1), "a percentage between zero and one")
    \cup When(Stopped(e) \/ Get(e.cfg, "par", "serial") # "serial" \/ \A i \in 1..(Len(P) - 1) : Ended(P[i]) \/ P[i+1].a >= P[i].a, "progress does not go back")
    \cup (IF Free(e) THEN ReachClauses(e, P) ELSE {})
\* how often every value was told, by stage
Tally(P) == [q \in {P[i] : i \in 1..Len(P)} |-> Cardinality({i \in 1..Len(P) : P[i] = q})]

(* ---- reports and recorded lists ---- *)
Micro == RDec("1.1e-6")
Said(a, b) == RNear(a, b, RDec("1e-12"), Micro)
Good(v) == RFinite(v) /\ RLt(v, RDec("1e300"))
Adaptive(e) == GetB(e.cfg, "ad", "1")
SaidBw(e, r, q) == /\ Len(r) = 2 /\ Said(r[2], q[2]) /\ Said(r[1], IF Adaptive(e) THEN RFloor(q[1]) ELSE q[1])
BwListClauses(e) ==
    IF ~Free(e) \/ "bwlist" \notin DOMAIN e.res THEN {}
    ELSE LET L == IF Empty(e.res.bwlist) THEN << >> ELSE e.res.bwlist E == e.evals IN
         When(\A i \in 1..Len(L) : \E j \in 1..Len(E) : SaidBw(e, E[j], L[i]), "every recorded bandwidth was reported")
         \cup When(\A j \in 1..Len(E) : \E i \in 1..Len(L) : SaidBw(e, E[j], L[i]), "every reported bandwidth is recorded with its value")
VarListClauses(e) ==
    IF ~Free(e) \/ "varlist" \notin DOMAIN e.res THEN {}
    ELSE LET L == SelectSeq(IF Empty(e.res.varlist) THEN << >> ELSE e.res.varlist, LAMBDA r : Good(r[1])) E == IF Empty(e.vevals) THEN << >> ELSE e.vevals
             same(r, q) == Len(r) = Len(q) /\ Said(r[1], q[1]) /\ \A i \in 2..Len(r) : r[i] = q[i]
         IN When(Len(L) = Len(E), "one report for every candidate subset")
            \cup When(\A i \in 1..Len(L) : \E j \in 1..Len(E) : same(E[j], L[i]), "every recorded subset was reported")
            \cup When(\A j \in 1..Len(E) : \E i \in 1..Len(L) : same(E[j], L[i]), "every reported subset is recorded with its value")
\* the headings name what follows, before the first report
Heading(e) == (IF Adaptive(e) THEN "adaptive" ELSE "fixed") \o ",criterion"
Of(L, tag) == SelectSeq(L, LAMBDA x : x.k = "m" /\ x.tag = tag)
HeadClauses(e, L) ==
    LET B == Of(L, "#bandwidth-criterion") V == Of(L, "#variable-criterion") M == Of(L, "#lambda-optimization") IN
    (IF e.alg \in {"basic", "robust", "lcr", "gtwr", "ggwr"} THEN When(Len(B) = 0 \/ B[1].rest = Heading(e), "the heading of the bandwidth reports") ELSE {})
    \cup (IF e.alg \in {"basic", "robust"} THEN When(Len(V) = 0 \/ V[1].rest = "variables,criterion", "the heading of the subset reports") ELSE {})
    \cup When(Len(M) = 0 \/ M[1].rest = "lambda,criterion", "the heading of the mixing-factor reports")
(* One report per candidate: the reports of a golden-section search are a  *)
(* walk of GoldenSection.  Candidates whose model fails are not reported.  *)
Failures(L) == \E i \in 1..Len(L) : L[i].k = "m" /\ L[i].tag = ""
Listed(Q, x) == \E i \in 1..Len(Q) : RNear(Q[i][1], x, RDec("1e-9"), RDec("1e-9"))
Value(Q, x) == IF Listed(Q, x) THEN Q[CHOOSE i \in 1..Len(Q) : RNear(Q[i][1], x, RDec("1e-9"), RDec("1e-9"))][2] ELSE Huge
RECURSIVE Walk(_, _, _, _)
Walk(g, ad, Q, tried) == IF GoesOn(g) THEN LET x == NextX(g, ad) IN Walk(Advance(g, ad, Value(Q, x)), ad, Q, tried \o << x >>) ELSE tried
\* a candidate whose model cannot fail: every sample carries weight
Sound(e, x) == e.alg # "ggwr" /\ Get(e.cfg, "kern", "gaussian") \in {"gaussian", "exponential"} /\ RLe(RInt(6), x)
WalkClauses(e, L) ==
    IF ~Free(e) \/ "bwlist" \notin DOMAIN e.res \/ e.alg \notin {"basic", "robust", "lcr", "gtwr", "ggwr"} \/ Len(e.evals) < 2 \/ Failures(L) THEN {}
    ELSE LET ad == Adaptive(e) Q == e.res.bwlist
             own == e.alg \in {"basic", "robust"}
             lo == IF own /\ Has(e.cfg, "lo") THEN GetR(e.cfg, "lo", "0") ELSE IF ad THEN RInt(20) ELSE R0
             up == IF own /\ Has(e.cfg, "up") THEN GetR(e.cfg, "up", "0") ELSE IF ad THEN RInt(e.n) ELSE R0
             \* the largest distance is known from the first two candidates only: their sum is lo + up
             exact(v) == LET I == {i \in 1..Len(Q) : Said(Q[i][1], v)} IN IF I = {} THEN v ELSE Q[CHOOSE i \in I : TRUE][1]
             top == IF up = R0 THEN RSub(RAdd(exact(e.evals[1][1]), exact(e.evals[2][1])), lo) ELSE up
             g0 == Begin(lo, top, ad)
             W == Walk([f1 |-> Value(Q, g0.x1), f2 |-> Value(Q, g0.x2)] @@ g0, ad, Q, << g0.x1, g0.x2 >>)
             T == SelectSeq(W, LAMBDA x : Listed(Q, x))
         IN IF up = R0 /\ ~(Listed(Q, g0.x1) /\ Listed(Q, g0.x2)) THEN {}   \* the range is not known then
            ELSE When(\A i \in 1..Len(W) : Sound(e, W[i]) => Listed(Q, W[i]), "every candidate is reported")
                 \cup When(Len(T) = Len(e.evals) /\ \A i \in 1..Len(T) : Said(e.evals[i][1], IF ad THEN RFloor(T[i]) ELSE T[i]), "one report for every candidate, in order")
LamClauses(e) == When(\A i \in 1..Len(e.levals) : Len(e.levals[i]) = 2 /\ RLe(R0, e.levals[i][1]) /\ RLe(e.levals[i][1], R1), "mixing factors between zero and one")

Talk(e) ==
    LET L == e.log N == StageNo(L) P == Counts(L, N) IN
    StageClauses(e) \cup HomeClauses(e, L, N) \cup LevelClauses(L) \cup ProgressClauses(e, L, P) \cup BwListClauses(e) \cup VarListClauses(e)
    \cup HeadClauses(e, L) \cup WalkClauses(e, L) \cup LamClauses(e)

(* ---- the reporting interface itself ---- *)
Level(a) == CASE a.how = "debug" -> 7 [] a.how = "manual" -> 7 [] a.how = "info" -> 6 [] a.how = "stage" -> 6 [] a.how = "warning" -> 4 [] a.how = "error" -> 3 [] OTHER -> GetI(a, "lv", "6")
ProbeClauses(e) ==
    LET one == Len(e.log) = 1 x == e.log[1] IN
    CASE e.call = "say" -> When(one /\ x.k = "m" /\ x.lv = Level(e.arg), "a message keeps its severity")
                           \cup When(one /\ x.rest = e.arg.text /\ x.tag = (IF e.arg.how = "stage" THEN "#stage" ELSE ""), "a message keeps its text")
      [] e.call = "count" -> When(one /\ x.k = "p" /\ x.a = GetI(e.arg, "a", "0") /\ x.b = GetI(e.arg, "b", "0"), "progress is passed on")
      [] e.call = "percent" -> When(one /\ x.k = "q" /\ x.p = GetR(e.arg, "p", "0"), "progress is passed on")

(* ---- one event ---- *)
\* x: [n, heard: what runs with a listener gave, by configuration; bags: what was told, by configuration without the mode]
NoMode(e) == Restrict(Key(<< >>, e), {"cfg"}) @@ [cfg |-> Restrict(e.cfg, Modes)]
Tell(x, e) ==
    CASE e.ev = "data" -> [st |-> [x EXCEPT !.n = Len(e.y)], bad |-> {}]
      [] e.ev = "run" /\ e.alg = "probe" -> [st |-> x, bad |-> ProbeClauses(e)]
      [] e.ev = "run" ->
            LET key == Key(<< >>, e) K == {r \in x.heard : r.key = key}
                f == [n |-> x.n] @@ e
                loud == "log" \in DOMAIN e
                talk == IF ~loud THEN {} ELSE Talk(f)
                bag == IF loud THEN Tally(Counts(e.log, StageNo(e.log))) ELSE << >>
                bk == NoMode(e) B == {r \in x.bags : r.key = bk}
                sel == On(e, "auto") \/ On(e, "avar") \/ On(e, "alam") \/ e.alg = "mgwr" \* selections may part after rounding
                y == IF Stopped(e) THEN x ELSE
                     [x EXCEPT !.heard = IF K = {} THEN @ \cup {[key |-> key, threw |-> e.threw, res |-> e.res, evals |-> IF loud THEN e.evals ELSE << >>, loud |-> loud]} ELSE @,
                               !.bags = IF loud /\ Free(e) /\ B = {} THEN @ \cup {[key |-> bk, bag |-> bag]} ELSE @]
            IN [st |-> y,
                bad |-> talk \cup (IF Stopped(e) THEN {} ELSE UNION { {"without a listener, " \o b : b \in AgreeClauses(r, IF r.loud = loud THEN e ELSE [evals |-> r.evals] @@ e)} : r \in K })
                        \cup (IF loud /\ Free(e) /\ ~sel THEN When(\A r \in B : r.bag = bag, "the same progress in every mode") ELSE {})]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]

TellInit == s \in 1..Len(Scn) /\ l = 1 /\ st = [heard |-> {}, bags |-> {}, n |-> 0]
TellNext == /\ l <= Len(Scn[s].tr)
            /\ LET r == Tell(st, Ev(s, l)) IN
               /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
               /\ st' = r.st
            /\ l' = l + 1
            /\ s' = s
TellSpec == TellInit /\ [][TellNext]_vars
=============================================================================
