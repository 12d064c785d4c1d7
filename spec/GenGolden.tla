----------------------------- MODULE GenGolden -----------------------------
(* Every complete search of GoldenModel becomes a scenario: the range and the scores it revealed. *)
EXTENDS GoldenModel, Json, SequencesExt
Emit == pc = "end" =>
    LET xs == SetToSeq(DOMAIN seen) IN
    PrintT("SCN" \o ToJson(<<[op |-> "golden", lo |-> lo, up |-> up, ad |-> TRUE, k |-> "bisquare", bw |-> 7, obj |-> "table",
        xs |-> [i \in 1..Len(xs) |-> RToInt(xs[i])], fs |-> [i \in 1..Len(xs) |-> RToInt(seen[xs[i]])], stop |-> 0]>>))
=============================================================================
