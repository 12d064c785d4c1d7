------------------------------ MODULE GenMpi ------------------------------
(***************************************************************************)
(* Distributed runs: any number of processes (more than samples, too), any *)
(* sample size, the configurations of GenRuns, and ones in which only some *)
(* samples, so only some processes, have a local system without solution.  *)
(***************************************************************************)
EXTENDS GenRuns
Np(i) == R({1, 2, 3, 3, 4, 5, 6, 7, 9})
Few(c) == [k |-> R({1, 1, 2}), n |-> R({6, 7, 8, 10}), kern |-> R({"gaussian", "exponential"}), avar |-> 0] @@ c
\* fixed bandwidths, small for the isolated sample
Sparse(c) == LET f == [ad |-> 0, bw |-> R({"3", "6", "30", "60"}), kern |-> R({"bisquare", "boxcar", "tricube", "gaussian"}), pts |-> R({"far", "mid", "uni"}), geo |-> 0, lo |-> R({"2", "5"}), up |-> R({"15", "60"})] IN
             f @@ c
BasicCfg(i) == LET q == R(1..6) c == [geo |-> 0] @@ Cfg(0) IN
    IF q <= 2 THEN Few(c) ELSE IF q <= 4 THEN Sparse([auto |-> R({0, 1, 1})] @@ c) ELSE c
MgwrCfg(i) == LET q == R(1..5) c == Cfg(0)
                  sparse == [ads |-> [m \in 1..c.k |-> 0], bws |-> [m \in 1..c.k |-> R({"3", "6", "60"})], pts |-> R({"far", "mid", "uni"}), lo |-> R({"5", "2"}), up |-> R({"30", "60"})]
              IN IF q = 1 THEN sparse @@ c ELSE IF q = 2 THEN [n |-> R({9, 10, 11})] @@ c ELSE c
Mul(i) == LET np == R(1..6) IN [op |-> "mul", np |-> np, rows |-> [p \in 1..np |-> R({0, 1, 1, 2, 3, 3, 5, 8})], cols |-> R({1, 2, 4, 7}), seed |-> R(1..999)]
Dist(c) == c @@ [wd |-> IF Alg = "mgwr" THEN R({1, 2}) ELSE R({0, 0, 1})]
Fit(o) == << [op |-> "fit", id |-> o] >>
ModeOf(o, m) == << [op |-> "cfg", id |-> o, par |-> m, thr |-> R({1, 2, 3})] >>
M(i) == R({"mpi", "mpi", "mpimp"})
Again(i) == CASE R(1..4) = 1 -> ModeOf(2, "serial") \o Fit(2)
              [] R(1..3) = 1 -> ModeOf(2, "serial") \o << [op |-> "predict", id |-> 2, ln |-> 5, ls |-> 3] >> \o << [op |-> "fresh", id |-> 3, from |-> 1], [op |-> "predict", id |-> 3, ln |-> 5, ls |-> 3] >>
              [] OTHER -> ModeOf(2, M(0)) \o Fit(2)
Whole(i) == LET c == IF Alg = "mgwr" THEN MgwrCfg(0) ELSE BasicCfg(0) m == M(0) IN
    << [op |-> "mpi", np |-> Np(0)], [op |-> "obj", id |-> 1, alg |-> Alg], Dist(c) >> \o Fit(1)
    \o << [op |-> "fresh", id |-> 2, from |-> 1] >> \o ModeOf(2, m) \o Fit(2)
    \o (IF Alg = "mgwr" THEN (IF R({1, 2}) = 1 THEN << >> ELSE ModeOf(2, "serial") \o Fit(2) \o << [op |-> "fresh", id |-> 3, from |-> 1] >> \o Fit(3)) ELSE IF R({1, 2}) = 1 THEN << >> ELSE Again(0))
MpiInit == h = << >>
MpiNext == IF Len(h) = 0 THEN h' = (IF Alg = "mul" THEN << Mul(0) >> ELSE Whole(0))
           ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
