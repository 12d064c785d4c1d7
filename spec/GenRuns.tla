------------------------------ MODULE GenRuns ------------------------------
(***************************************************************************)
(* Behaviours of the abstract machine of RunTrace for one algorithm:       *)
(*   config    a history of calls, cancelled calls, failing calls and      *)
(*             reconfigurations of one object, each followed by the same   *)
(*             call on a fresh object configured the same                  *)
(*   parallel  the same call under every mode of execution                 *)
(*   cancel    a call stopped at every place where it listens              *)
(*   report    the same call heard, unheard, in parallel and stopped       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
GW == INSTANCE GenGwr WITH K <- K, h <- h
MG == INSTANCE GenMgwr WITH K <- K, h <- h
DR == INSTANCE GenGwdr WITH K <- K, h <- h
SC == INSTANCE GenScal WITH K <- K, h <- h
R(S) == RandomElement(S)
Alg == IOEnv.ALG
Aspect == IOEnv.ASPECT
Small == Aspect = "cancel"
Ns(i) == IF Small THEN R({9, 11}) ELSE R({13, 17, 20})
Ks == {"gaussian", "gaussian", "exponential", "bisquare", "tricube", "boxcar"}
\* a data set and weights that every algorithm can work with
Weight(a) == [kern |-> R(Ks), ad |-> a, bw |-> IF a = 1 THEN (IF Small THEN R({"7", "8.5", "9"}) ELSE R({"9", "11", "12.5", "30"})) ELSE R({"6", "9", "40"}), pts |-> R({"uni", "neg", "uni", "dup"})]
Data(i) == [n |-> Ns(0), k |-> R({1, 2, 2, 3}), xk |-> R({"uni", "uni", "pos"}), storeS |-> R({0, 1}), icpt |-> R({"1", "1", "1", "0"})]
Auto(a) == [auto |-> R({0, 0, 1}), lo |-> IF a = 1 THEN R({"6", "7"}) ELSE "4", up |-> IF a = 1 THEN R({"9", "11"}) ELSE R({"9", "20"})]
Gwr(i) == LET a == R({0, 1, 1})
              own == CASE Alg \in {"basic", "robust"} -> Auto(a) @@ [avar |-> R({0, 0, 0, 1})]
                       [] Alg \in {"lcr", "ggwr", "gtwr"} -> [auto |-> IF Small THEN R({0, 0, 0, 1}) ELSE R({0, 0, 1})]
                       [] Alg \in {"gwss", "gwda", "gwpca"} -> [x |-> 0]
              c == GW!Cfg(0)
              k == CASE Alg = "gwda" -> [k |-> R({2, 3}), kern |-> R({"gaussian", "exponential"}), icpt |-> "0", n |-> IF Small THEN 14 ELSE R({20, 26}), xk |-> "uni"]
                     [] Alg \in {"gwss", "gwpca"} -> [k |-> R({2, 3, 4}), keep |-> R({1, 2})]
                     [] Alg = "lcr" -> [k |-> R({2, 3})]
                     \* own search ranges are for twenty samples or more
                     [] Alg \in {"ggwr", "gtwr"} -> [n |-> IF own.auto = 1 THEN 22 ELSE Ns(0), k |-> R({1, 2})]
                     [] OTHER -> [k |-> R({1, 2, 2, 3})]
              m == IF Alg = "gtwr" THEN [alam |-> R({0, 0, 1})] ELSE [x |-> 0]
              g == IF "geo" \in DOMAIN c THEN [pts |-> "geoloc", ad |-> 1] ELSE [geo |-> 0]
              all == k @@ own @@ m @@ g @@ Weight(a) @@ Data(0) @@ c
          IN IF all.ad = 1 /\ "lo" \in DOMAIN all THEN [bw |-> IF Small THEN "8.5" ELSE "11", lo |-> "7", up |-> "9"] @@ all ELSE all
Dr(i) == LET c == DR!Cfg(0)
             ads == [j \in 1..c.dim |-> 1] IN
         [pts |-> R({"uni", "neg"}), n |-> Ns(0), k |-> R({1, 2}), ads |-> ads, bws |-> [j \in 1..c.dim |-> R({"9", "12", "40"})], kerns |-> [j \in 1..c.dim |-> R({"gaussian", "exponential", "bisquare"})],
          auto |-> R({0, 0, 1}), avar |-> R({0, 0, 1}), vthr |-> "3", oeps |-> "1e-2", ostep |-> "0.1", omax |-> 400, xk |-> "uni"] @@ c
Mg(i) == LET c == MG!Cfg(0) IN [maxit |-> R({1, 3}), n |-> IF Small THEN 12 ELSE R({14, 18}), xk |-> "uni", pts |-> R({"uni", "neg"}), cthr |-> "1e-2"] @@ c
Sc(i) == LET c == SC!Cfg(0) IN [bw |-> R({"6", "8", "9"}), n |-> Ns(0), pts |-> "uni", geo |-> 0, xk |-> "uni", k |-> R({1, 2, 3})] @@ c
Cfg0(i) == CASE Alg = "mgwr" -> Mg(0) [] Alg = "gwdr" -> Dr(0) [] Alg = "scal" -> Sc(0) [] OTHER -> Gwr(0)
\* every key of the domain anew, or a few of them
Cfg(i) == LET c == Cfg0(0) IN IF Aspect = "parallel" THEN [par |-> "serial"] @@ c ELSE c
Only(c, S) == [k \in DOMAIN c \cap S |-> c[k]]
Delta(i) == LET c == Cfg(0) q == R(1..7) IN
    CASE q = 5 /\ Alg \in {"mgwr", "gwdr"} -> c
      [] q = 1 -> Only(c, {"op", "id", "seed"})
      [] q = 2 -> Only(c, {"op", "id", "seed", "n"})
      [] q = 3 -> Only(c, {"op", "id", "par", "thr"})
      [] q = 4 \/ (Alg = "mgwr" /\ q > 5) -> Only(c, {"op", "id", "hat", "crit", R({"seed", "op"}), "keep", "mode", "quant", "first", "wqda", "hcov", "hmean", "hprior", "filt", "poly", "auto", "maxit", "tol", "ctype", "cthr", "retry", "vthr"})
                @@ (IF Alg = "mgwr" THEN [cens |-> [j \in 1..4 |-> R({0, 1})]] ELSE [op |-> "cfg"])
      [] q = 5 -> Only(c, {"op", "id", "kern", "bw", "ad", "ads", "bws", "kerns", "dk", "ord", "theta", "sp", "lambda", "angle", "pts"})
      [] OTHER -> c
Calls == CASE Alg \in {"gwss", "gwda", "gwpca"} -> {"run"}
           [] Alg = "mgwr" -> {"fit"}
           [] OTHER -> {"fit", "fit", "predict"}
Call(i) == LET q == R(1..3) IN
    IF "run" \in Calls THEN [op |-> "run"]
    ELSE IF q < 3 \/ "predict" \notin Calls THEN [op |-> "fit"]
    ELSE IF R({1, 2}) = 1 /\ Alg # "mgwr" THEN [op |-> "predict", same |-> 1] ELSE [op |-> "predict", ln |-> R({"1", "3", "7", "26", "n"}), ls |-> R(1..200)]
On(c, o) == [id |-> o] @@ c
\* the same call on the object and on a fresh one
Twice(c) == << On(c, 1), [op |-> "fresh", id |-> 2, from |-> 1], On(c, 2) >>
Broken(i) == LET b == R({"1", "1.5"}) IN
             CASE Alg = "mgwr" -> [op |-> "cfg", id |-> 1, maxit |-> 1]
               [] Alg = "gwdr" -> LET c == Cfg(0) IN [bws |-> [j \in 1..c.dim |-> b]] @@ c
               [] OTHER -> [op |-> "cfg", id |-> 1, bw |-> b, ad |-> 1, kern |-> "boxcar"]
Thr(i) == R({1, 2, 3, 5, 30})
Stop(i) == IF R({1, 2}) = 1 THEN R(0..8) ELSE R(0..60)
\* with threads delayed at random, where they ask whether to stop
Late(c, o) == [jitter |-> R(0..300)] @@ On(c, o)
Step(i) ==
    CASE Aspect = "parallel" ->
            LET c == Call(0)
                par(o) == << [op |-> "fresh", id |-> o, from |-> 1], [op |-> "cfg", id |-> o, par |-> "omp", thr |-> Thr(0)], Late(c, o) >>
            IN << Cfg(0), On(c, 1) >> \o par(2) \o (IF R({1, 2}) = 1 THEN par(3) ELSE << [op |-> "cfg", id |-> 2, par |-> "omp", thr |-> Thr(0)], Late(c, 2) >>)
      [] Aspect = "cancel" -> << [sweep |-> IF Alg = "mgwr" THEN 30 ELSE 60, sticky |-> R({0, 1, 1})] @@ On(Call(0), 1) >>
      [] Aspect = "report" ->
            LET c == Call(0) fresh(o) == [op |-> "fresh", id |-> o, from |-> 1] log(o) == [log |-> 1] @@ On(c, o) IN
            << Cfg(0), log(1), fresh(2), [deaf |-> 1] @@ On(c, 2), fresh(3), [op |-> "cfg", id |-> 3, par |-> R({"omp", "serial"}), thr |-> Thr(0)], log(3),
               fresh(4), [stop |-> Stop(0), sticky |-> R({0, 1})] @@ log(4) >>
      [] Aspect = "config" ->
            LET q == R(1..10) c == Call(0) IN
            IF q <= 3 THEN Twice(c)
            ELSE IF q <= 5 THEN << [stop |-> Stop(0)] @@ On(Call(0), 1) >> \o Twice(c)
            ELSE IF q = 6 THEN << Cfg(0), [stop |-> Stop(0)] @@ On(Call(0), 1), Cfg(0) >> \o Twice(c)
            ELSE IF q = 7 THEN << Broken(0), On(Call(0), 1), Cfg(0) >> \o Twice(c)
            ELSE << Cfg(0), On(Call(0), 1), Delta(0) >> \o Twice(c)
Init == h = << >>
Next == IF Len(h) = 0 THEN h' = << [op |-> "obj", id |-> 1, alg |-> Alg], Cfg(0) >>
        ELSE IF Len(h) < K THEN h' = h \o Step(0)
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
