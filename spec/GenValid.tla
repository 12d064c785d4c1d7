------------------------------ MODULE GenValid ------------------------------
(***************************************************************************)
(* Histories of settings for one algorithm.                                *)
(*   all     every combination of set, unset and ill-fitting settings, the *)
(*           question asked after each setting                             *)
(*   walk    random histories of settings and resettings                   *)
(***************************************************************************)
EXTENDS Validity, Json, IOUtils, TLC
CONSTANT K
VARIABLE h
Alg == IOEnv.ALG
R(S) == RandomElement(S)
Rep(n, v) == [i \in 1..n |-> v]
Set(w) == [op |-> "set", what |-> w]
None == [op |-> "none"]
\* the alternatives of every setting, the fitting ones for 9 samples, 2 predictors and 2 dimensions first
CoordsA == {Set("coords") @@ [n |-> 9], Set("coords") @@ [n |-> 8], Set("coords") @@ [n |-> 11], None} \cup (IF Alg = "gtwr" THEN {Set("coords") @@ [n |-> 9, nt |-> 0], Set("coords") @@ [n |-> 9, nt |-> 8]} ELSE {})
           \cup (IF Alg = "gwdr" THEN {Set("coords") @@ [n |-> 9, dim |-> 1], Set("coords") @@ [n |-> 9, dim |-> 3]} ELSE {})
XA == {Set("x") @@ [n |-> 9, k |-> k] : k \in {2, 1}} \cup {Set("x") @@ [n |-> 9, k |-> 0], Set("x") @@ [n |-> 8, k |-> 2], Set("x") @@ [n |-> 11, k |-> 2], None}
YA == {Set("y") @@ [n |-> 9], Set("y") @@ [n |-> 8], Set("y") @@ [n |-> 11], None}
WA == {Set("w") @@ [kind |-> k, bw |-> b, ad |-> a, kern |-> f] : k \in {"both"}, b \in {7, 0, -3}, a \in {0, 1}, f \in IF Alg = "scal" THEN {"gaussian", "exponential", "bisquare"} ELSE {"gaussian", "boxcar"}}
      \cup {Set("w") @@ [kind |-> k, bw |-> 7, ad |-> 1, kern |-> "gaussian"] : k \in {"none", "weight", "dist"}} \cup {None}
WsA == {Set("ws") @@ [kinds |-> Rep(m, "both"), bws |-> Rep(m, b), ad |-> a] : m \in {2, 1, 3}, b \in {7}, a \in {0, 1}}
       \cup {Set("ws") @@ [kinds |-> << "both", k >>, bws |-> << 7, b >>, ad |-> a] : k \in {"both", "weight", "dist", "none"}, b \in {7, 0, -3}, a \in {0, 1}}
       \cup {None}
Vec(w) == {Set(w) @@ [m |-> m] : m \in {2, 1}} \cup {None}
InitA == {Set("inits") @@ [m |-> m, v |-> v] : m \in {2, 1}, v \in {"null", "spec", "init"}} \cup {None}
KeepA == {Set("keep") @@ [k |-> k] : k \in {2, 1, 0, -1, 3}} \cup {None}
AutoA == {Set("auto") @@ [v |-> v] : v \in {0, 1}} \cup {None}
Slots == CASE Alg \in Mono -> << CoordsA, XA, YA, WA >>
           [] Alg = "gwss" -> << CoordsA, XA, WA >>
           [] Alg = "gwda" -> << CoordsA, XA, YA, WA >>
           [] Alg = "gwpca" -> << CoordsA, XA, WA, KeepA >>
           [] Alg = "mgwr" -> << XA, CoordsA, YA, WsA, InitA, Vec("apps"), Vec("cens"), Vec("thrs") >>
           [] Alg = "gwdr" -> << CoordsA, XA, YA, WsA, AutoA >>
Ask == [op |-> "ask"]
Start == << [op |-> "obj", alg |-> Alg], Ask >>
Init == h = << >>
\* all: one slot after the other
N == Len(Slots)
Chosen == Len(h)
RECURSIVE Story(_)
Story(q) == IF q = << >> THEN << >> ELSE (IF Head(q) = None THEN << >> ELSE << Head(q), Ask >>) \o Story(Tail(q))
All == IF Chosen < N THEN \E c \in Slots[Chosen + 1] : h' = Append(h, c)
       ELSE IF Chosen = N THEN PrintT("SCN" \o ToJson(Start \o Story(h))) /\ h' = Append(h, None)
       ELSE FALSE /\ UNCHANGED h
\* walk: mostly fitting settings, in any order, with runs in between
Fit(i) == R(R({Slots[j] : j \in 1..N}))
Good(i) == CASE Alg \in Mono \cup {"gwda"} -> << Set("coords") @@ [n |-> 9], Set("x") @@ [n |-> 9, k |-> 2], Set("y") @@ [n |-> 9], Set("w") @@ [kind |-> "both", bw |-> 7, ad |-> 1, kern |-> "gaussian"] >>
             [] Alg \in {"gwss", "gwpca"} -> << Set("coords") @@ [n |-> 9], Set("x") @@ [n |-> 9, k |-> 2], Set("w") @@ [kind |-> "both", bw |-> 7, ad |-> 1, kern |-> "gaussian"] >>
             [] Alg = "gwdr" -> << Set("coords") @@ [n |-> 9], Set("x") @@ [n |-> 9, k |-> 2], Set("y") @@ [n |-> 9], Set("ws") @@ [kinds |-> << "both", "both" >>, bws |-> << 7, 8 >>, ad |-> 1] >>
             [] Alg = "mgwr" -> << Set("coords") @@ [n |-> 9], Set("x") @@ [n |-> 9, k |-> 2], Set("y") @@ [n |-> 9], Set("ws") @@ [kinds |-> << "both", "both" >>, bws |-> << 7, 8 >>, ad |-> 1],
                                    Set("inits") @@ [m |-> 2, v |-> "spec"], Set("apps") @@ [m |-> 2], Set("cens") @@ [m |-> 2], Set("thrs") @@ [m |-> 2] >>
Asked(q) == Story(q)
RECURSIVE Steps(_)
Steps(n) == IF n = 0 THEN << >> ELSE LET c == Fit(n) IN (IF c = None THEN << >> ELSE << c, Ask >>) \o Steps(n - 1)
Run == IF Alg \in {"mgwr", "gwda"} THEN << Ask >> ELSE << [op |-> "go"], Ask >>
Walk == IF Len(h) < K THEN h' = h \o << None >>
        ELSE PrintT("SCN" \o ToJson(Start \o Steps(R(0..4)) \o Asked(Good(0)) \o Run \o Steps(R(0..6)) \o Asked(Good(0)) \o Run)) /\ h' = << >>
Next == IF IOEnv.ASPECT = "all" THEN All ELSE Walk
=============================================================================
