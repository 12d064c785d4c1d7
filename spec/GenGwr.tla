------------------------------- MODULE GenGwr -------------------------------
(* Random behaviours of one model object: configure, then a few calls of the wanted kind.  MODE selects the calls. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Mode == IOEnv.MODE
Data(i) == [op |-> "cfg", id |-> 1, n |-> R({6, 12, 17, 24}), k |-> R({1, 2, 3, 4}), seed |-> R(1..2000),
         pts |-> R({"uni", "uni", "lattice", "clu", "dup", "big", "neg"}), xk |-> R({"uni", "uni", "int", "scale", "const", "pos"}),
         yk |-> IF Mode = "crit" /\ R(1..8) = 1 THEN R({"zero", "huge", "huge"}) ELSE R({"smooth", "noise", "shift", "out"}), icpt |-> R({"1", "1", "1", "0"}),
         hat |-> R({0, 1, 1}), storeS |-> R({0, 0, 1}), storeC |-> R({0, 1}), crit |-> R({"CV", "AIC"}),
         par |-> R({"serial", "serial", "omp"}), thr |-> R({1, 2, 3, 5, 30})]
WAdaptive(i) == [kern |-> R(Ks), ad |-> 1, bw |-> R({"3", "5", "6", "8.5", "11", "12", "16", "24", "40"}), dk |-> R({"crs", "crs", "mink"}),
         ord |-> R({"1", "2", "3"}), theta |-> R({"0", "0.7"})]
WFixed(i) == [kern |-> R(Ks), ad |-> 0, bw |-> R({"0.4", "1", "2.5", "4", "8", "300", "2000"}), dk |-> R({"crs", "crs", "mink"}),
         ord |-> R({"1", "-1", "2"}), theta |-> R({"0", "0.7"})]
WGeo(i) == [kern |-> R(Ks), ad |-> R({0, 1}), bw |-> R({"7", "12", "40"}), dk |-> "crs", geo |-> 1, pts |-> "geoloc"]
AutoOn(c) == c @@ [auto |-> R({0, 1}), avar |-> R({0, 1}), vthr |-> R({"0.5", "3"}),
                   lo |-> IF c.ad = 1 THEN R({"4", "6"}) ELSE IF c.pts = "big" THEN "200" ELSE R({"1.5", "3"}),
                   up |-> IF c.ad = 1 THEN R({"11", "12", "24"}) ELSE IF c.pts = "big" THEN "900" ELSE R({"7", "20"})]
Cfg0(i) == LET q == R(1..9) IN IF q = 1 THEN WGeo(0) @@ Data(0) ELSE IF q < 6 THEN WAdaptive(0) @@ Data(0) ELSE WFixed(0) @@ Data(0)
\* what an algorithm adds to the common configuration (earlier entries win)
Extra(i) == CASE IOEnv.ALG = "robust" -> [storeC |-> 0, filt |-> R({0, 1}), yk |-> R({"out", "out1", "out1", "noise", "smooth"}), n |-> IF Mode = "predict" THEN R({14, 24, 30}) ELSE R({9, 14, 18, 24, 30})]
              [] IOEnv.ALG = "lcr" -> [ridge |-> R({"0", "0", "0.3", "2"}), adj |-> R({0, 1, 1}), cn |-> R({"30", "5", "2", "1.5"}), storeC |-> 0,
                                       k |-> R({2, 3, 3, 4}), xk |-> R({"uni", "int", "scale", "coll", "pos"}), icpt |-> R({"1", "1", "1", "0"})]
              [] IOEnv.ALG = "ggwr" -> LET f == R({"poisson", "binomial"}) IN
                                       [fam |-> f, yk |-> IF f = "poisson" THEN R({"count", "count", "zcount"}) ELSE R({"binary", "binary", "rare"}),
                                        xk |-> R({"uni", "uni", "int", "pos"}), k |-> R({1, 2, 2, 3}), n |-> R({12, 17, 24, 30}), tol |-> R({"1e-5", "1e-8", "1e-2"}), maxit |-> R({1, 2, 20, 20, 50}),
                                        storeS |-> 0, storeC |-> 0]
              [] IOEnv.ALG = "gtwr" -> [dk |-> "st", storeS |-> 0, sp |-> R({"crs", "crs", "mink"}), lambda |-> R({"0", "0.05", "0.3", "0.5", "0.8", "1"}), storeC |-> 0,
                                        angle |-> R({"1.5707963267948966", "1.5707963267948966", "0.6", "1.2"}), tk |-> R({"mix", "int", "same"}), k |-> R({1, 1, 2, 3}),
                                        alam |-> IF Mode = "auto" THEN R({0, 1}) ELSE IF Mode = "lambda" THEN 1 ELSE 0, n |-> R({6, 12, 17, 24})]
              [] IOEnv.ALG = "gwss" -> [mode |-> R({"avg", "avg", "corr"}), quant |-> R({0, 1, 1}), first |-> R({0, 1}), icpt |-> R({"0", "0", "0", "1"}), n |-> R({6, 12, 17, 24})]
              [] IOEnv.ALG = "gwpca" -> [keep |-> R({1, 2, 2, 3, 4}), icpt |-> R({"0", "0", "0", "1"}), k |-> R({2, 3, 4}), xk |-> R({"uni", "uni", "int", "scale", "coll", "pos", "const"})]
              [] IOEnv.ALG = "gwda" -> [wqda |-> R({0, 1}), hcov |-> R({0, 1, 1}), hmean |-> R({0, 1, 1}), hprior |-> R({0, 1, 1}), ng |-> R({2, 2, 3, 3, 4}), kern |-> R({"gaussian", "gaussian", "exponential", "bisquare", "tricube", "boxcar"}),
                                        icpt |-> R({"0", "0", "0", "0", "0", "1"}), k |-> R({1, 2, 2, 2, 3, 3}), n |-> R({17, 24, 30, 40}),
                                        pts |-> R({"uni", "uni", "lattice", "neg", "dup"}), xk |-> R({"uni", "uni", "uni", "int", "pos", "apart", "lone"})]
              [] OTHER -> [alg |-> IOEnv.ALG]
\* great-circle distance has no Minkowski form
Cfg2(i) == LET c == Cfg0(0) IN IF "geo" \in DOMAIN c THEN [sp |-> "crs"] @@ Extra(0) @@ c ELSE Extra(0) @@ c
\* now and then a larger instance than is worth having everywhere
Cfg1(i) == LET c == Cfg2(0) IN
    IF Mode \in {"fit", "run", "crit"} /\ IOEnv.ALG # "gwda" /\ R(1..(IF Mode = "crit" THEN 60 ELSE 30)) = 1
    THEN [n |-> R({45, 70}), k |-> R({3, 5, 6}), bw |-> IF c.ad = 1 THEN R({"20.5", "33", "44", "120"}) ELSE c.bw] @@ c ELSE c
\* selection within the range the algorithm gives itself: adaptive from 20 samples on
AutoSelf(c) == [auto |-> 1, n |-> R({24, 27, 30})] @@ c
Cfg(i) == IF Mode = "auto" THEN (IF IOEnv.ALG \in {"basic", "robust"} THEN AutoOn(Cfg1(0)) ELSE AutoSelf(Cfg1(0))) ELSE Cfg1(0)
Vars(k, ic) == LET lo == IF ic = "1" THEN 1 ELSE 0
                   S == lo..(k - 1)
               IN IF S = {} THEN << 0 >> ELSE LET a == R(S) rest == S \ {a} IN
                  IF rest = {} \/ R({1, 2}) = 1 THEN << a >> ELSE LET b == R(rest) IN IF R({1, 2, 3}) > 1 \/ rest = {b} THEN << a, b >> ELSE << a, b, R(rest \ {b}) >>
Call(c) ==
    CASE Mode \in {"fit", "auto", "lambda"} -> [op |-> "fit", id |-> 1]
      [] Mode = "run" -> [op |-> "run", id |-> 1]
      [] Mode = "predict" -> LET q == R(1..4) IN IF q = 1 \/ (IOEnv.ALG = "robust" /\ Len(h) = 2) THEN [op |-> "fit", id |-> 1] ELSE IF q = 2 THEN [op |-> "predict", id |-> 1, same |-> 1]
                             ELSE [op |-> "predict", id |-> 1, ln |-> R({"1", "3", "7", "30", "41", "n"}), ls |-> R(1..500)]
      [] Mode = "crit" -> IF R(1..4) = 1 /\ c.k > 1 /\ IOEnv.ALG \in {"basic", "robust"}
                          THEN [op |-> "vcrit", id |-> 1, vars |-> Vars(c.k, c.icpt)]
                          ELSE [op |-> "crit", id |-> 1, cbw |-> IF c.ad = 1 THEN R({"1", "2", "3", "4", "6", "9.5", "12", "17", "24", "60"})
                                                                   ELSE R({"0.2", "0.6", "1", "1.5", "3", "8", "300", "3000"})]
Init == h = << >>
Next == IF Len(h) = 0 THEN h' = << [op |-> "obj", id |-> 1, alg |-> IOEnv.ALG], Cfg(0) >>
        ELSE IF Len(h) < K THEN h' = Append(h, Call(h[2]))
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
