------------------------------ MODULE GenGwdr ------------------------------
(* Random behaviours of a density regression object. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
R(S) == RandomElement(S)
Ks == {"gaussian", "gaussian", "exponential", "bisquare", "tricube", "boxcar"}
Mode == IOEnv.MODE
Bw(a) == IF a = 1 THEN R({"6", "9", "11", "14.5", "17", "24", "40"}) ELSE R({"2.5", "4", "6", "9", "30"})
Cfg(i) == LET dim == R({1, 2, 2, 2, 3})
              ads == [m \in 1..dim |-> R({0, 1, 1})]
              auto == IF Mode = "auto" THEN R({0, 1, 1}) ELSE 0
          IN [op |-> "cfg", id |-> 1, n |-> IF Mode = "auto" THEN R({14, 20}) ELSE R({9, 14, 20, 30, 20, 30, 48}), k |-> R({1, 2, 3, 1, 2, 3, 5}), seed |-> R(1..2000), dim |-> dim,
              pts |-> R({"uni", "uni", "lattice", "clu", "dup", "neg"}), xk |-> R({"uni", "uni", "int", "scale", "pos"}),
              yk |-> R({"smooth", "noise", "shift", "out"}), icpt |-> R({"1", "1", "1", "0"}), hat |-> R({0, 1}), crit |-> R({"CV", "AIC"}),
              kern |-> "x", par |-> R({"serial", "omp"}), thr |-> R({1, 2, 3, 5, 30}),
              ads |-> ads, kerns |-> [m \in 1..dim |-> R(Ks)],
              bws |-> [m \in 1..dim |-> IF Mode = "auto" /\ auto = 1 /\ R(1..4) = 1 THEN R({"0", "1", "100"}) ELSE Bw(ads[m])],
              auto |-> auto, avar |-> IF Mode = "auto" THEN (IF auto = 1 THEN R({0, 0, 1}) ELSE 1) ELSE 0, vthr |-> R({"0.5", "3"}),
              oeps |-> R({"1e-2", "1e-3"}), ostep |-> R({"0.01", "0.1", "0.3"}), omax |-> R({60, 1000})]
Vars(k, ic) == LET lo == IF ic = "1" THEN 1 ELSE 0
                   S == lo..(k - 1)
               IN IF S = {} THEN << 0 >> ELSE LET a == R(S) rest == S \ {a} IN IF rest = {} \/ R({1, 2}) = 1 THEN << a >> ELSE << a, R(rest) >>
Call(c) ==
    CASE Mode = "auto" -> [op |-> "fit", id |-> 1]
      [] Mode = "fit" -> [op |-> "fit", id |-> 1]
      [] Mode = "predict" -> IF R(1..4) = 1 THEN [op |-> "fit", id |-> 1] ELSE IF R(1..3) = 1 THEN [op |-> "predict", id |-> 1, same |-> 1]
                             ELSE [op |-> "predict", id |-> 1, ln |-> R({"1", "3", "7", "30", "41", "n"}), ls |-> R(1..500)]
      [] Mode = "crit" -> IF Len(h) = 2 THEN [op |-> "fit", id |-> 1]
                          ELSE IF R(1..4) = 1 /\ c.k > 1 THEN [op |-> "vcrit", id |-> 1, vars |-> Vars(c.k, c.icpt)]
                          ELSE [op |-> "crit", id |-> 1, cbws |-> [m \in 1..c.dim |-> IF c.ads[m] = 1 THEN R({"1", "2", "4", "6", "9.5", "12", "17", "24", "60"})
                                                                   ELSE R({"0.6", "1.5", "3", "8", "30"})]]
Init == h = << >>
Next == IF Len(h) = 0 THEN h' = << [op |-> "obj", id |-> 1, alg |-> "gwdr"], Cfg(0) >>
        ELSE IF Len(h) < K THEN h' = Append(h, Call(h[2]))
        ELSE PrintT("SCN" \o ToJson(h)) /\ h' = << >>
=============================================================================
