---------------------------- MODULE ForwardModel ----------------------------
(***************************************************************************)
(* Greedy forward selection of N candidates, exhaustively over every       *)
(* assignment of scores 0..Levels to the subsets it evaluates.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS N, Levels, Thresholds
VARIABLES cur, rest, round, list, thr, pc, res
vars == <<cur, rest, round, list, thr, pc, res>>
\* list: the evaluated subsets with scores, rounds in order, each round by decreasing score
Init == /\ cur = << >> /\ rest = 1..N /\ list = << >> /\ round = << >> /\ thr \in Thresholds /\ pc = "eval" /\ res = {}
Eval == /\ pc = "eval" /\ Len(round) < Cardinality(rest)
        /\ LET todo == SetToSortSeq(rest, LAMBDA a, b : a < b)
               v == todo[Len(round) + 1] IN
           \E f \in 0..Levels : round' = Append(round, [vars |-> ToSet(cur) \cup {v}, add |-> v, f |-> f])
        /\ UNCHANGED <<cur, rest, list, thr, pc, res>>
EndRound == /\ pc = "eval" /\ Len(round) = Cardinality(rest) /\ rest # {}
            /\ LET best == CHOOSE i \in 1..Len(round) : \A j \in 1..Len(round) :
                              round[i].f < round[j].f \/ (round[i].f = round[j].f /\ i <= j)
               IN /\ cur' = Append(cur, round[best].add) /\ rest' = rest \ {round[best].add}
                  /\ list' = list \o SortSeq(round, LAMBDA a, b : a.f > b.f)
            /\ round' = << >> /\ UNCHANGED <<thr, pc, res>>
Choose == /\ pc = "eval" /\ rest = {}
          /\ LET ok == {i \in 2..Len(list) : list[i - 1].f - list[i].f >= thr}
             IN res' = IF ok = {} THEN 1..N ELSE list[CHOOSE i \in ok : \A j \in ok : j <= i].vars
          /\ pc' = "end" /\ UNCHANGED <<cur, rest, round, list, thr>>
Next == Eval \/ EndRound \/ Choose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NonEmptySubset == pc = "end" => res # {} /\ res \subseteq 1..N
Evaluations == pc = "end" => Len(list) = (N * (N + 1)) \div 2
Terminates == <>(pc = "end")
Emit == pc = "end" =>
    PrintT("SCN" \o ToJson(<<[op |-> "forward", cand |-> [i \in 1..N |-> 2 * i + (i % 2)], thr |-> thr, obj |-> "table", stop |-> 0,
        sets |-> [i \in 1..Len(list) |-> LET q == SetToSortSeq(list[i].vars, LAMBDA a, b : a < b)
                                         IN [j \in 1..Len(q) |-> 2 * q[j] + (q[j] % 2)]],
        fs |-> [i \in 1..Len(list) |-> list[i].f]]>>))
=============================================================================
