---------------------------- MODULE SelectTrace ----------------------------
(* Trace specification of bandwidth selection (GoldenSection) and forward variable selection (ForwardModel). *)
EXTENDS GoldenSection, Json, IOUtils, TLC
VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, j) == Scn[i].tr[j]

Init0 == [pc |-> "idle"]
Same(a, b) == RNear(a, b, RDec("1e-9"), RDec("1e-12"))

(* ---- bandwidth selection.  pc: "first" (0 or 1 of the initial candidates evaluated), "loop", "stopped". *)
GStart(e) == [pc |-> "first", e |-> e, g |-> Begin(e.lo, e.up, e.ad), done |-> << >>, evals |-> {}, stop |-> FALSE]
\* evaluation of candidate e.x with score e.f (e.ok: not interrupted)
GEval(x, e) ==
    LET rec == [x EXCEPT !.evals = x.evals \cup {<<e.x, e.f, e.ok>>}]
        meta == (IF e.ad # x.e.ad \/ e.k # x.e.k THEN {"candidates keep kernel and mode"} ELSE {})
                \cup (IF RLe(x.e.lo, e.x) /\ RLe(e.x, x.e.up) THEN {} ELSE {"candidate in range"})
                \cup (IF ~x.e.ad \/ RFloor(e.x) = e.x THEN {} ELSE {"adaptive candidate is whole"})
    IN CASE x.pc = "first" ->
              LET d == Append(x.done, e)
                  known == Len(x.done) = 0 \/ ~(Same(x.done[1].x, e.x) /\ ~Same(x.g.x1, x.g.x2))
                  bad == IF known /\ (Same(e.x, x.g.x1) \/ Same(e.x, x.g.x2)) THEN {} ELSE {"initial candidates"} IN
              IF Len(d) = 1 THEN [st |-> [rec EXCEPT !.done = d, !.stop = ~e.ok], bad |-> meta \cup bad]
              ELSE LET swap == ~Same(d[1].x, x.g.x1)
                       a == IF swap THEN d[2] ELSE d[1]
                       b == IF swap THEN d[1] ELSE d[2]
                   IN [st |-> [rec EXCEPT !.done = d, !.pc = IF d[1].ok /\ d[2].ok THEN "loop" ELSE "stopped", !.stop = ~(d[1].ok /\ d[2].ok),
                               !.g = [x.g EXCEPT !.x1 = a.x, !.x2 = b.x] @@ [f1 |-> a.f, f2 |-> b.f]],
                       bad |-> meta \cup bad]
         [] x.pc = "loop" ->
              IF ~GoesOn(x.g) \/ (x.g.f1 = Huge /\ x.g.f2 = Huge) THEN [st |-> rec, bad |-> meta \cup {"evaluates nothing after it has converged"}]
              ELSE IF ~Same(NextX(x.g, x.e.ad), e.x)
                   THEN [st |-> [rec EXCEPT !.pc = "lost"], bad |-> meta \cup {"narrows to the side of the better score"}]
              ELSE IF ~e.ok THEN [st |-> [rec EXCEPT !.pc = "stopped", !.stop = TRUE], bad |-> meta]
              ELSE [st |-> [rec EXCEPT !.g = LET q == Advance(x.g, x.e.ad, e.f) IN
                              IF Right(x.g) THEN [q EXCEPT !.x1 = e.x] ELSE [q EXCEPT !.x2 = e.x]], bad |-> meta]
         [] x.pc = "stopped" -> [st |-> rec, bad |-> {"evaluates nothing after an interruption"}]
         [] OTHER -> [st |-> rec, bad |-> meta]
Completed(x) == {<<v[1], v[2]>> : v \in {q \in x.evals : q[3]}}
GEnd(x, e) ==
    IF x.pc = "lost" THEN {}
    ELSE IF x.stop THEN (IF e.threw \/ ~(e.bw = x.e.bw /\ e.ad = x.e.ad /\ e.k = x.e.k)
                         THEN {"an interrupted selection hands back the given bandwidth"} ELSE {})
    ELSE IF x.pc = "loop" /\ x.g.f1 = Huge /\ x.g.f2 = Huge /\ x.g.iter = 0
         THEN (IF e.threw THEN {} ELSE {"no usable initial candidate raises an error"})
    ELSE IF x.pc # "loop" THEN {"initial candidates evaluated"}
    ELSE IF e.threw THEN {"selection succeeds"}
    ELSE (IF GoesOn(x.g) THEN {"stops only when converged"} ELSE {})
      \cup (IF e.bw = Best(x.g) THEN {} ELSE {"returns the better of the last two"})
      \cup (IF \A v \in Completed(x) : RLe(RMin(x.g.f1, x.g.f2), v[2]) THEN {} ELSE {"best score of all evaluated"})
      \cup (IF e.ad = x.e.ad /\ e.k = x.e.k THEN {} ELSE {"result keeps kernel and mode"})
      \cup (IF RLe(x.e.lo, e.bw) /\ RLe(e.bw, x.e.up) THEN {} ELSE {"result in range"})
      \cup (IF {<<q[1], q[2]>> : q \in {e.list[i] : i \in 1..Len(e.list)}} = {v \in Completed(x) : v[2] # Huge} THEN {}
            ELSE {"record holds exactly the evaluated bandwidths"})
      \cup (IF \A i \in 1..(Len(e.list) - 1) : RLt(e.list[i][1], e.list[i + 1][1]) THEN {} ELSE {"record ordered by bandwidth"})

(* ---- forward selection *)
FStart(e) == [pc |-> "fwd", e |-> e, cur |-> {{}}, round |-> << >>, all |-> << >>, stop |-> FALSE]
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* subsets the current round has to evaluate, for each possible best subset of the previous round
Exts(x, c) == {c \cup {v} : v \in SetOf(x.e.cand) \ c}
RoundDone(x) == \E c \in x.cur : {r.v : r \in SetOf(x.round)} = Exts(x, c) /\ Len(x.round) = Cardinality(Exts(x, c))
BestOf(r) == {q.v : q \in {a \in SetOf(r) : \A b \in SetOf(r) : RLe(a.f, b.f)}}
FEval(x, e) ==
    LET v == SetOf(e.vars)
        base == IF RoundDone(x) THEN [x EXCEPT !.cur = BestOf(x.round), !.round = << >>] ELSE x
        cs == {c \in base.cur : v \in Exts(base, c)}
        y == [base EXCEPT !.cur = IF cs = {} THEN base.cur ELSE cs,
                          !.round = Append(base.round, [v |-> v, f |-> e.f]),
                          !.all = Append(base.all, [v |-> v, f |-> e.f, r |-> Cardinality(v)]),
                          !.stop = x.stop \/ ~e.ok]
    IN [st |-> y, bad |-> (IF x.stop THEN {"evaluates nothing after an interruption"} ELSE {})
                       \cup (IF cs = {} \/ v \in {r.v : r \in SetOf(base.round)} \/ Len(e.vars) # Cardinality(v)
                             THEN {"evaluates one-variable extensions of the best subset"} ELSE {})]
FEnd(x, e) ==
    LET n == Len(x.e.cand)
        L == e.list
        score(i) == L[i].f
        better(i) == RLe(x.e.thr, RSub(score(i - 1), score(i)))
        ok == {i \in 2..Len(L) : better(i)}
        pick == IF ok = {} THEN SetOf(x.e.cand) ELSE SetOf(L[CHOOSE i \in ok : \A j \in ok : j <= i].vars)
    IN IF x.stop THEN (IF e.threw \/ SetOf(e.res) # SetOf(x.e.cand) THEN {"an interrupted selection hands back the candidates"} ELSE {})
       ELSE IF e.threw THEN {"selection succeeds"}
       ELSE (IF Len(x.all) = (n * (n + 1)) \div 2 THEN {} ELSE {"every round evaluates every extension"})
         \cup (IF Len(L) = Len(x.all) /\ {[v |-> SetOf(q.vars), f |-> q.f] : q \in SetOf(L)} = {[v |-> q.v, f |-> q.f] : q \in SetOf(x.all)}
               THEN {} ELSE {"record holds exactly the evaluated subsets"})
         \cup (IF \A i \in 1..(Len(L) - 1) : \/ Len(L[i].vars) < Len(L[i + 1].vars)
                                             \/ Len(L[i].vars) = Len(L[i + 1].vars) /\ RLe(score(i + 1), score(i))
               THEN {} ELSE {"record ordered by round and decreasing score"})
         \cup (IF SetOf(e.res) = pick THEN {} ELSE {"returns the last model that improves by the threshold"})
         \cup (IF (Len(e.res) > 0 \/ n = 0) /\ Cardinality(SetOf(e.res)) = Len(e.res) /\ SetOf(e.res) \subseteq SetOf(x.e.cand) THEN {}
               ELSE {"result is a non-empty subset of the candidates"})

Step(x, e) ==
    CASE e.ev = "gstart" -> [st |-> GStart(e), bad |-> {}]
      [] e.ev = "geval"  -> GEval(x, e)
      [] e.ev = "gend"   -> [st |-> Init0, bad |-> GEnd(x, e)]
      [] e.ev = "fstart" -> [st |-> FStart(e), bad |-> {}]
      [] e.ev = "feval"  -> FEval(x, e)
      [] e.ev = "fend"   -> [st |-> Init0, bad |-> FEnd(x, e)]
      [] e.ev = "done"   -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]
Init == s \in 1..Len(Scn) /\ l = 1 /\ st = Init0
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Ev(s, l)) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
