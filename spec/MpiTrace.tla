------------------------------ MODULE MpiTrace ------------------------------
(***************************************************************************)
(* Distributed runs on the abstract machine of RunTrace (ASPECT=parallel,  *)
(* so that a serial and a distributed call are the same call): the root's  *)
(* result agrees with the serial one, every other process ends its part of *)
(* the call, and ends it the way the root does.  And products of matrices  *)
(* whose rows are spread over the processes.                               *)
(***************************************************************************)
EXTENDS RunTrace

RECURSIVE CountTo(_, _)
CountTo(r, i) == IF i = 0 THEN 0 ELSE r[i] + CountTo(r, i - 1)
MulOk(m, e) ==
    LET rows == [i \in 1..Len(m.rows[1]) |-> RToInt(m.rows[1][i])]
        from == IF e.rank = 0 THEN 0 ELSE CountTo(rows, e.rank)
        n == rows[e.rank + 1]
        want == [i \in 1..n |-> m.c[from + i]]
    IN When(~e.threw, "the product is computed on every process")
       \cup (IF e.threw THEN {} ELSE When(Len(e.c) = n /\ (n = 0 \/ MNear(e.c, want, RDec("1e-9"), RDec("1e-9"))), "the product of the spread matrices"))

MpiStep(x, e) ==
    CASE e.ev = "rank" -> [st |-> x, bad |-> When(e.ended, "the call ends on every process") \cup (IF e.ended THEN When(e.threw = x.last, "the call ends the same way on every process") ELSE {})]
      [] e.ev = "mul" -> [st |-> [x EXCEPT !.mul = [rows |-> e.rows, c |-> IF Len(e.a) = 0 THEN << >> ELSE Force2(MMul(e.a, e.b))]], bad |-> {}]
      [] e.ev = "block" -> [st |-> [x EXCEPT !.blocks = @ \cup {e.rank}], bad |-> MulOk(x.mul, e)]
      [] e.ev = "done" -> [st |-> x, bad |-> IF x.mul = << >> THEN {} ELSE When(x.blocks = 0..(Len(x.mul.rows[1]) - 1), "every process has its rows of the product")]
      [] OTHER -> LET r == Step(x, e) IN [r EXCEPT !.st = IF e.ev = "run" THEN [@ EXCEPT !.last = e.threw] ELSE @]

MpiInit == s \in 1..Len(Scn) /\ l = 1 /\ st = [known |-> {}, marred |-> {}, sel |-> << >>, n |-> 0, k |-> 0, last |-> FALSE, mul |-> << >>, blocks |-> {}]
MpiNext == /\ l <= Len(Scn[s].tr)
           /\ LET r == MpiStep(st, Ev(s, l)) IN
              /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
              /\ st' = r.st
           /\ l' = l + 1
           /\ s' = s
MpiSpec == MpiInit /\ [][MpiNext]_vars
=============================================================================
