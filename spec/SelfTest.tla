------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* LinAlg's operators have Java values for speed.  This module evaluates   *)
(* each of them (D!) and its TLA+ definition (R!, module LinAlgRef: the    *)
(* text of LinAlg under a name without a Java class, made by               *)
(* tools/selftest.py) on pseudo-random arguments and compares the results. *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC
D == INSTANCE LinAlg
R == INSTANCE LinAlgRef

CONSTANT Rounds
VARIABLE k
\* a small linear congruential generator; numbers with few digits, so that ties happen
Rnd(s, i, j) == LET m == (s * 7919 + i * 104729 + j * 1299709 + (i * j) * 31 + 12345) % 65521
                    n == ((m % 8191) * 221 + 77 * i + j) % 8192
                IN RDiv(RInt((n % 513) - 256), RInt(IF n % 3 = 0 THEN 64 ELSE 37))
Vec(s, n)    == [i \in 1..n |-> Rnd(s, i, 1)]
Mat(s, r, c) == [i \in 1..r |-> [j \in 1..c |-> Rnd(s, i, j)]]
Wts(s, n)    == [i \in 1..n |-> RAbs(Rnd(s, i, 5))]
Eq(u, v)     == R!VNear(u, v, RDec("1e-12"), RDec("1e-12"))
EqM(A, B)    == R!MNear(A, B, RDec("1e-12"), RDec("1e-12"))
EqS(a, b)    == RNear(a, b, RDec("1e-12"), RDec("1e-12"))
Spec0(n) == 1 + (n % 7)
Bad(s) ==
    LET n == 2 + (s % 7)  p == 1 + (s % 4)
        u == Vec(s, n)  v == Vec(s + 1, n)  c == Rnd(s, 3, 4)
        A == Mat(s, n, p)  B == Mat(s + 2, p, 3)  X == Mat(s + 3, n, p)
        w == Wts(s, n)  Sq == Mat(s + 4, p, p)
        Sy == [i \in 1..p |-> [j \in 1..p |-> RAdd(Sq[i][j], Sq[j][i])]]
        t == RDec("1e-3") z == RDec("1e-6")
        di == D!MInv(Sq)  ri == R!MInv(Sq)
        near == [i \in 1..n |-> RAdd(u[i], IF i = 1 THEN RDec("0.002") ELSE RInt(0))]
    IN  (IF EqS(D!VSum(u), R!VSum(u)) THEN {} ELSE {"VSum"})
  \cup  (IF EqS(D!VDot(u, v), R!VDot(u, v)) THEN {} ELSE {"VDot"})
  \cup  (IF D!VAdd(u, v) = R!VAdd(u, v) THEN {} ELSE {"VAdd"})
  \cup  (IF D!VSub(u, v) = R!VSub(u, v) THEN {} ELSE {"VSub"})
  \cup  (IF D!VMul(u, v) = R!VMul(u, v) THEN {} ELSE {"VMul"})
  \cup  (IF Eq(D!VDiv(u, v), R!VDiv(u, v)) THEN {} ELSE {"VDiv"})
  \cup  (IF D!VScale(c, v) = R!VScale(c, v) THEN {} ELSE {"VScale"})
  \cup  (IF D!VShift(c, v) = R!VShift(c, v) THEN {} ELSE {"VShift"})
  \cup  (IF D!VMax(u) = R!VMax(u) THEN {} ELSE {"VMax"})
  \cup  (IF D!VMin(u) = R!VMin(u) THEN {} ELSE {"VMin"})
  \cup  (IF D!VMaxAbs(u) = R!VMaxAbs(u) THEN {} ELSE {"VMaxAbs"})
  \cup  (IF D!VSortIndex(u) = R!VSortIndex(u) THEN {} ELSE {"VSortIndex"})
  \cup  (IF D!VSort(u) = R!VSort(u) THEN {} ELSE {"VSort"})
  \cup  (IF D!MCol(A, p) = R!MCol(A, p) THEN {} ELSE {"MCol"})
  \cup  (IF D!MT(A) = R!MT(A) THEN {} ELSE {"MT"})
  \cup  (IF Eq(D!MVec(A, Vec(s, p)), R!MVec(A, Vec(s, p))) THEN {} ELSE {"MVec"})
  \cup  (IF Eq(D!VMat(u, A), R!VMat(u, A)) THEN {} ELSE {"VMat"})
  \cup  (IF EqM(D!MMul(A, B), R!MMul(A, B)) THEN {} ELSE {"MMul"})
  \cup  (IF EqM(D!XtWX(X, w), R!XtWX(X, w)) THEN {} ELSE {"XtWX"})
  \cup  (IF Eq(D!XtWy(X, w, u), R!XtWy(X, w, u)) THEN {} ELSE {"XtWy"})
  \cup  (IF EqM(D!XtW(X, w), R!XtW(X, w)) THEN {} ELSE {"XtW"})
  \cup  (IF Eq(D!RowDot(A, X), R!RowDot(A, X)) THEN {} ELSE {"RowDot"})
  \cup  (IF EqS(D!MNormInf(A), R!MNormInf(A)) THEN {} ELSE {"MNormInf"})
  \cup  (IF di.ok = ri.ok /\ (di.ok => R!MNear(di.inv, ri.inv, RDec("1e-7"), RDec("1e-7"))) THEN {} ELSE {"MInv"})
  \cup  (IF R!VNear(D!EigSym(Sy), R!EigSym(Sy), RDec("1e-9"), RDec("1e-9")) THEN {} ELSE {"EigSym"})
  \cup  (IF D!VClose(u, near, t, z) = R!VClose(u, near, t, z) THEN {} ELSE {"VClose"})
  \cup  (IF D!VClose(u, v, t, z) = R!VClose(u, v, t, z) THEN {} ELSE {"VClose"})
  \cup  (IF D!MClose(A, X, t, z) = R!MClose(A, X, t, z) THEN {} ELSE {"MClose"})
  \cup  (IF D!MClose(A, A, t, z) = R!MClose(A, A, t, z) THEN {} ELSE {"MClose"})
  \cup  (IF D!MNear(A, X, t, z) = R!MNear(A, X, t, z) THEN {} ELSE {"MNear"})
  \cup  (IF D!MNear(A, A, t, z) = R!MNear(A, A, t, z) THEN {} ELSE {"MNear"})
Init == k = 1
Next == k < Rounds /\ k' = k + 1
Agree == LET b == Bad(k * 131) IN IF b = {} THEN TRUE ELSE PrintT(<<"DIFFER", k, b>>) /\ FALSE
=============================================================================
