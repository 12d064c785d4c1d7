----------------------------- MODULE GenForward -----------------------------
EXTENDS Integers, Sequences, Json, TLC
VARIABLE h
R(S) == RandomElement(S)
Cands == {<< >>, <<1>>, <<5>>, <<1, 2>>, <<4, 2>>, <<1, 2, 3>>, <<7, 3, 5>>, <<1, 2, 3, 4>>, <<9, 1, 6, 3>>, <<1, 2, 3, 4, 5>>, <<2, 4, 6, 8, 10, 12>>,
          <<3, 1, 4, 5, 9, 2, 6>>}
Full(i) == [op |-> "forward", cand |-> R(Cands), thr |-> R({"0", "0.5", "3", "10", "1000", "-1"}), seed |-> R(1..5000),
         obj |-> R({"additive", "noise", "ties", "huge", "rise", "flat", "neg", "cross", "hugebig"}), stop |-> R({0, 0, 0, 0, 1, 2, 3, 5, 8}), again |-> R({0, 1})]
Init == h = << >>
Emit == PrintT("SCN" \o ToJson(h)) /\ h' = << >>
\* one to three selections, the later ones on the selector of the one before when again=1
Next == IF Len(h) = 3 THEN Emit
        ELSE \/ h' = Append(h, Full(Len(h)))
             \/ Len(h) > 0 /\ Emit
=============================================================================
