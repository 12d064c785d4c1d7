------------------------------ MODULE MpiModel ------------------------------
(***************************************************************************)
(* The protocol of a distributed fit: the root shares the data out in      *)
(* blocks of equal size, every process solves the systems of its block,    *)
(* the processes agree whether all could, the workers send their parts in  *)
(* any order, the root puts them together and tells everyone.              *)
(* Agree = FALSE leaves the agreement out (as the library once did): then  *)
(* a process that fails alone leaves the others waiting.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxP, MaxN, Agree
VARIABLES np, n, bad, pc, box, got, out, told
vars == <<np, n, bad, pc, box, got, out, told>>
P == 0..(np - 1)
Min(a, b) == IF a < b THEN a ELSE b
Size == (n \div np) + (IF n % np = 0 THEN 0 ELSE 1)
From(p) == Min(p * Size, n)
To(p) == Min(From(p) + Size, n)
Block(p) == {i \in 0..(n - 1) : From(p) <= i /\ i < To(p)}
Fails(p) == Block(p) \cap bad # {}
Parts == {"coefficients", "traces"}
Init == /\ np \in 1..MaxP /\ n \in 1..MaxN
        /\ bad \in {b \in SUBSET (0..(MaxN - 1)) : Cardinality(b) <= 2 /\ \A i \in b : i < n}
        /\ pc = [p \in 0..(MaxP - 1) |-> IF p < np THEN "local" ELSE "off"]
        /\ box = {} /\ got = {} /\ out = [i \in 0..(MaxN - 1) |-> -1] /\ told = {}
Keep == UNCHANGED <<np, n, bad>>
Local(p) == /\ pc[p] = "local"
            /\ pc' = [pc EXCEPT ![p] = IF Agree THEN "agree" ELSE IF Fails(p) THEN "failed" ELSE IF p = 0 THEN "gather" ELSE "send"]
            /\ UNCHANGED <<box, got, out, told>> /\ Keep
\* a collective operation: no one leaves before everyone came
Agreed(p) == /\ pc[p] = "agree" /\ \A q \in P : pc[q] # "local"
             /\ pc' = [pc EXCEPT ![p] = IF \E q \in P : Fails(q) THEN "failed" ELSE IF p = 0 THEN "gather" ELSE "send"]
             /\ UNCHANGED <<box, got, out, told>> /\ Keep
Sent(p) == {m \in Parts : <<p, m>> \in box \/ <<p, m>> \in got}
Send(p) == /\ pc[p] = "send" /\ \E m \in Parts \ Sent(p) : box' = box \cup {<<p, m>>}
           /\ UNCHANGED <<pc, got, out, told>> /\ Keep
SendDone(p) == /\ pc[p] = "send" /\ Sent(p) = Parts /\ pc' = [pc EXCEPT ![p] = "wait"]
               /\ UNCHANGED <<box, got, out, told>> /\ Keep
Receive == /\ pc[0] = "gather"
           /\ \E m \in box : /\ box' = box \ {m} /\ got' = got \cup {m}
                             /\ out' = IF m[2] = "coefficients" THEN [i \in DOMAIN out |-> IF i \in Block(m[1]) THEN m[1] ELSE out[i]] ELSE out
           /\ UNCHANGED <<pc, told>> /\ Keep
Finish == /\ pc[0] = "gather" /\ got = (P \ {0}) \X Parts
          /\ out' = [i \in DOMAIN out |-> IF i \in Block(0) THEN 0 ELSE out[i]]
          /\ told' = P /\ pc' = [pc EXCEPT ![0] = "done"] /\ UNCHANGED <<box, got>> /\ Keep
Told(p) == /\ pc[p] = "wait" /\ p \in told /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ UNCHANGED <<box, got, out, told>> /\ Keep
Next == Receive \/ Finish \/ \E p \in P : Local(p) \/ Agreed(p) \/ Send(p) \/ SendDone(p) \/ Told(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every sample belongs to exactly one block
Partition == \A i \in 0..(n - 1) : Cardinality({p \in P : i \in Block(p)}) = 1
Complete == pc[0] = "done" => \A i \in 0..(n - 1) : out[i] \in P /\ i \in Block(out[i])
Alike == (\A p \in P : pc[p] \in {"done", "failed"}) => (\A p \in P : pc[p] = "done") \/ (\A p \in P : pc[p] = "failed")
Failure == \A p \in P : pc[p] = "done" => bad = {}
AllEnd == <>(\A p \in P : pc[p] \in {"done", "failed"})
=============================================================================
