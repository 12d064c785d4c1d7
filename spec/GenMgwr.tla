------------------------------ MODULE GenMgwr ------------------------------
(* Random behaviours of a multiscale GWR object. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Mode == IOEnv.MODE
Bw(a) == IF a = 1 THEN R({"8", "9", "11", "13.5", "17", "24"}) ELSE R({"2.5", "4", "6", "9", "30"})
Init1(a) == IF Mode = "spec" THEN "spec" ELSE R({"spec", "null", "null", "init"})
Cfg1(i) == LET k == R({1, 2, 2, 3})
               one == R({0, 0, 1})
               a0 == IF R(1..4) = 1 THEN 0 ELSE 1
               ads == [m \in 1..k |-> IF R(1..3) = 1 THEN 0 ELSE 1]
               all == [m \in 1..k |-> IF one = 1 THEN a0 ELSE ads[m]]
          IN [op |-> "cfg", id |-> 1, n |-> R({12, 16, 20, 26}), k |-> k, seed |-> R(1..2000),
              pts |-> R({"uni", "uni", "lattice", "clu", "neg"}), xk |-> R({"uni", "uni", "int", "scale", "pos"}),
              yk |-> R({"smooth", "noise", "shift", "out"}), icpt |-> R({"1", "1", "1", "0"}), hat |-> R({0, 1}),
              kern |-> "x", dk |-> R({"crs", "crs", "mink"}), ord |-> R({"1", "3"}), theta |-> R({"0", "0.7"}), par |-> R({"serial", "omp"}), thr |-> R({1, 2, 3, 5, 30}),
              ads |-> all, kerns |-> [m \in 1..k |-> R(Ks)], bws |-> [m \in 1..k |-> Bw(all[m])],
              inits |-> [m \in 1..k |-> Init1(m)], apps |-> [m \in 1..k |-> R({"CV", "AIC"})], cens |-> [m \in 1..k |-> R({0, 1})],
              thrs |-> [m \in 1..k |-> R({"0.5", "1.5", "0.00002"})], retry |-> R({1, 2, 3}),
              maxit |-> IF Mode = "spec" THEN R({1, 3, 40}) ELSE R({1, 2, 4, 7}), ctype |-> R({"CVR", "dCVR"}), cthr |-> R({"1e-1", "1e-2", "1e-4"}), alow |-> R({5, 7})]
\* common bounds only when all bandwidths are of one kind
Cfg(i) == LET c == Cfg1(0) IN
          IF R({1, 2}) = 1 \/ \E a, b \in 1..c.k : c.ads[a] # c.ads[b] THEN c
          ELSE c @@ (IF c.ads[1] = 1 THEN [lo |-> R({"5", "6"}), up |-> R({"10", "12"})] ELSE [lo |-> R({"3", "4.5"}), up |-> R({"9", "20"})])
Init == h = << >>
Next == IF Len(h) = 0 THEN h' = << [op |-> "obj", id |-> 1, alg |-> "mgwr"], Cfg(0) >>
        ELSE IF Len(h) < K THEN h' = Append(h, [op |-> "fit", id |-> 1])
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
