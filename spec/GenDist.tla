------------------------------ MODULE GenDist ------------------------------
(* Random histories of a distance object (simulate): construction, point sets, refused point sets, parameter changes,
   cloning, queries inside and outside the range. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT K
VARIABLES h, kind
PointKinds == {"uni", "lattice", "line", "dup", "big", "neg"}
GeoKinds == {"geo", "geoloc", "dateline", "globe"}
Orders == {"1", "-1", "2", "3", "1.5", "0.5", "4"}
Thetas == {"0", "0.5", "-1.2", "3.0"}
Lambdas == {"0", "1", "0.5", "0.05", "0.9"}
News ==
         {[op |-> "new", kind |-> "crs", geo |-> g] : g \in BOOLEAN}
    \cup {[op |-> "new", kind |-> "mink", geo |-> FALSE, ord |-> o, theta |-> t] : o \in Orders, t \in Thetas}
    \cup {[op |-> "new", kind |-> "one", geo |-> FALSE]}
    \cup {[op |-> "new", kind |-> "st", geo |-> g, sp |-> "crs", lambda |-> a] : g \in BOOLEAN, a \in Lambdas}
    \cup {[op |-> "new", kind |-> "st", geo |-> FALSE, sp |-> "crs", lambda |-> a, angle |-> b] :
                a \in Lambdas, b \in {"0", "0.3", "1.0", "1.5707963267948966", "2.0", "-0.7"}}
    \cup {[op |-> "new", kind |-> "st", geo |-> FALSE, sp |-> "mink", ord |-> o, theta |-> "0.5", lambda |-> a] :
                o \in {"1", "3"}, a \in Lambdas}
Makes(geo) == {[op |-> "make", pts |-> p, n |-> n, m |-> m, seed |-> q] :
                  p \in IF geo THEN GeoKinds ELSE PointKinds, n \in {1, 2, 6, 11}, m \in {0, 3, -3}, q \in 1..4}
Bad == {[op |-> "badmake", how |-> x] : x \in {"none", "one", "three", "five", "cols3", "cols1", "type", "rows"}}
Queries == {[op |-> "dist", f |-> f] : f \in {0, 1, 5, 6, 30}} \cup {[op |-> "max"], [op |-> "min"]}
Sets == {[op |-> "set", what |-> "ord", v |-> x] : x \in Orders}
   \cup {[op |-> "set", what |-> "theta", v |-> x] : x \in Thetas}
   \cup {[op |-> "set", what |-> "lambda", v |-> x] : x \in Lambdas \cup {"-0.1", "1.5"}}
\* geometry may be switched while points stay
GeoSets == {[op |-> "set", what |-> "geo", v |-> x] : x \in {"0", "1"}}
ForKind(S) == {o \in S : \/ o.what \in {"ord", "theta"} /\ kind.kind = "mink"
                         \/ o.what = "lambda" /\ kind.kind = "st"
                         \/ o.what = "geo" /\ kind.kind = "crs"}
Class(c) ==
    CASE c = 1 -> Makes(kind.geo)
      [] c \in {2, 3, 4} -> Queries
      [] c = 5 -> Bad
      [] c = 6 -> IF ForKind(Sets) = {} THEN Queries ELSE ForKind(Sets)
      [] c = 7 -> {[op |-> "clone"]}
Init == h = << >> /\ kind \in News
Next == \/ /\ Len(h) = 0
           /\ h' = <<kind>> /\ UNCHANGED kind
        \/ /\ Len(h) \in 1..(K - 1)
           /\ \E c \in 1..7 : \E o \in {RandomElement(Class(c))} : h' = Append(h, o)
           /\ UNCHANGED kind
        \/ /\ Len(h) = K
           /\ PrintT("SCN" \o ToJson(h))
           /\ h' = << >> /\ UNCHANGED kind
=============================================================================
