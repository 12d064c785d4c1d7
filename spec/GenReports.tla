----------------------------- MODULE GenReports -----------------------------
(* Everything a caller can be told through the reporting interface, in     *)
(* every order of two: kind of report, text, severity, progress.           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT K
VARIABLE h
Says == {[op |-> "say", how |-> w, text |-> t, log |-> 1, id |-> 1] : w \in {"debug", "info", "warning", "error", "stage", "manual"}, t \in {"x", "two,3"}}
        \cup {[op |-> "say", how |-> "any", text |-> "y", lv |-> v, log |-> 1, id |-> 1] : v \in 0..7}
Counts == {[op |-> "count", a |-> a, b |-> b, log |-> 1, id |-> 1] : a \in {0, 1, 7}, b \in {7, 70000}}
          \cup {[op |-> "percent", p |-> p, log |-> 1, id |-> 1] : p \in {"0", "0.25", "1"}}
Init == h = << [op |-> "obj", id |-> 1, alg |-> "probe"] >>
Next == IF Len(h) < K - 1 THEN \E c \in Says \cup Counts : h' = Append(h, c)
        ELSE IF Len(h) = K - 1 THEN /\ PrintT("SCN" \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
        ELSE FALSE /\ UNCHANGED h
=============================================================================
