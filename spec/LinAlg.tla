------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors are sequences of numbers, matrices sequences of rows.           *)
(* Every operator has its TLA+ definition here; those used in inner loops  *)
(* are also given a Java value in LinAlg.java with the same meaning (the   *)
(* check `tools/selftest.py` evaluates both on random arguments and        *)
(* compares them).                                                         *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets
LOCAL INSTANCE Folds
LOCAL INSTANCE TLC

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)

RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN R0 ELSE RAdd(SumTo(v, i - 1), v[i])
VSum(v)      == SumTo(v, Len(v))
RECURSIVE DotTo(_, _, _)
DotTo(u, v, i) == IF i = 0 THEN R0 ELSE RAdd(DotTo(u, v, i - 1), RMul(u[i], v[i]))
VDot(u, v)   == DotTo(u, v, Len(u))
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VMul(u, v)   == [i \in 1..Len(u) |-> RMul(u[i], v[i])]
VDiv(u, v)   == [i \in 1..Len(u) |-> RDiv(u[i], v[i])]
VScale(c, v) == [i \in 1..Len(v) |-> RMul(c, v[i])]
VShift(c, v) == [i \in 1..Len(v) |-> RAdd(c, v[i])]
RECURSIVE MaxTo(_, _)
MaxTo(v, i)  == IF i = 1 THEN v[1] ELSE RMax(MaxTo(v, i - 1), v[i])
VMax(v)      == MaxTo(v, Len(v))
RECURSIVE MinTo(_, _)
MinTo(v, i)  == IF i = 1 THEN v[1] ELSE RMin(MinTo(v, i - 1), v[i])
VMin(v)      == MinTo(v, Len(v))
VMaxAbs(v)   == IF Len(v) = 0 THEN R0 ELSE VMax([i \in 1..Len(v) |-> RAbs(v[i])])
VConst(n, c) == [i \in 1..n |-> c]
VFinite(v)   == \A i \in 1..Len(v) : RFinite(v[i])
VMean(v)     == RDiv(VSum(v), RInt(Len(v)))

\* the indices of v in the order of increasing value, ties by index
RECURSIVE SortIdx(_, _)
SortIdx(v, S) ==
    IF S = {} THEN << >>
    ELSE LET m == CHOOSE i \in S : \A j \in S : RLt(v[i], v[j]) \/ (~RLt(v[j], v[i]) /\ i <= j)
         IN <<m>> \o SortIdx(v, S \ {m})
VSortIndex(v) == SortIdx(v, 1..Len(v))
VSort(v)      == LET o == VSortIndex(v) IN [i \in 1..Len(v) |-> v[o[i]]]

MRows(A)     == Len(A)
MCols(A)     == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MCol(A, j)   == [i \in 1..Len(A) |-> A[i][j]]
MT(A)        == [j \in 1..MCols(A) |-> MCol(A, j)]
MVec(A, v)   == [i \in 1..Len(A) |-> VDot(A[i], v)]
VMat(v, A)   == [j \in 1..MCols(A) |-> VDot(v, MCol(A, j))]
MMul(A, B)   == [i \in 1..Len(A) |-> VMat(A[i], B)]
MAdd(A, B)   == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B)   == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(c, A) == [i \in 1..Len(A) |-> VScale(c, A[i])]
MId(n)       == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]
MShape(A, r, c) == /\ Len(A) = r
                   /\ \A i \in 1..r : Len(A[i]) = c
MSelCols(A, cs) == [i \in 1..Len(A) |-> [j \in 1..Len(cs) |-> A[i][cs[j]]]]
MSelRows(A, rs) == [i \in 1..Len(rs) |-> A[rs[i]]]
MMaxAbs(A)   == IF Len(A) = 0 THEN R0 ELSE VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(A[i])])
MTrace(A)    == VSum([i \in 1..Len(A) |-> A[i][i]])
\* X' diag(w) X and X' diag(w) y for the rows of X
XtWX(X, w)    == [a \in 1..MCols(X) |-> [b \in 1..MCols(X) |->
                    VSum([i \in 1..Len(X) |-> RMul(RMul(X[i][a], w[i]), X[i][b])])]]
XtWy(X, w, y) == [a \in 1..MCols(X) |-> VSum([i \in 1..Len(X) |-> RMul(RMul(X[i][a], w[i]), y[i])])]
XtW(X, w)     == [a \in 1..MCols(X) |-> [i \in 1..Len(X) |-> RMul(X[i][a], w[i])]]
\* row sums of the elementwise product of two matrices (the fitted values of local coefficients)
RowDot(A, B) == [i \in 1..Len(A) |-> VDot(A[i], B[i])]

(* Inverse by Gauss-Jordan elimination with partial pivoting.  Result: [ok, inv]. *)
PivotRow(A, k) == CHOOSE p \in k..Len(A) : \A q \in k..Len(A) :
                    RLt(RAbs(A[q][k]), RAbs(A[p][k])) \/ (~RLt(RAbs(A[p][k]), RAbs(A[q][k])) /\ p <= q)
SwapRows(A, i, j) == [A EXCEPT ![i] = A[j], ![j] = A[i]]
RECURSIVE GJ(_, _)
GJ(A, k) ==
    IF k > Len(A) THEN [ok |-> TRUE, inv |-> A]
    ELSE LET p == PivotRow(A, k)
             B == Force2(SwapRows(A, k, p))
             d == B[k][k]
         IN IF ~RLt(R0, RAbs(d)) \/ ~RFinite(d) THEN [ok |-> FALSE, inv |-> A]
            ELSE LET rk == Force(VScale(RDiv(R1, d), B[k]))
                     C  == Force2([i \in 1..Len(B) |-> IF i = k THEN rk
                                     ELSE VSub(B[i], VScale(B[i][k], rk))])
                 IN GJ(C, k + 1)
MInv(A) ==
    LET n == Len(A)
        r == GJ(Force2([i \in 1..n |-> A[i] \o [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]), 1)
    IN IF r.ok THEN [ok |-> TRUE, inv |-> Force2([i \in 1..n |-> SubSeq(r.inv[i], n + 1, 2 * n)])]
       ELSE [ok |-> FALSE, inv |-> << >>]

\* infinity norm, and the condition number estimate norm(A) * norm(inv A)
MNormInf(A) == VMax([i \in 1..Len(A) |-> VSum([j \in 1..Len(A[i]) |-> RAbs(A[i][j])])])

\* |u[i] - v[i]| <= abs + rel * scale for all i, where scale is the largest magnitude of both vectors
VClose(u, v, rel, abs) ==
    /\ Len(u) = Len(v)
    /\ LET t == RAdd(abs, RMul(rel, RMax(VMaxAbs(u), VMaxAbs(v))))
       IN \A i \in 1..Len(u) : RFinite(u[i]) /\ RFinite(v[i]) /\ RLe(RAbs(RSub(u[i], v[i])), t)
\* as VClose, column by column of two matrices
MClose(A, B, rel, abs) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
    /\ \A j \in 1..MCols(A) : VClose(MCol(A, j), MCol(B, j), rel, abs)
\* elementwise RNear, so that equal infinities and NaN at the same place agree
VNear(u, v, rel, abs) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], rel, abs)
MNear(A, B, rel, abs) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], rel, abs)

(* Eigenvalues of a symmetric matrix by cyclic Jacobi rotations, in decreasing order. *)
Rot(A, p, q) ==
    LET n == Len(A) apq == A[p][q] IN
    IF ~RLt(RDec("1e-300"), RAbs(apq)) THEN A
    ELSE LET th == RDiv(RSub(A[q][q], A[p][p]), RMul(R2, apq))
             t0 == RDiv(R1, RAdd(RAbs(th), RSqrt(RAdd(RMul(th, th), R1))))
             t  == IF RLt(th, R0) THEN RNeg(t0) ELSE t0
             c  == RDiv(R1, RSqrt(RAdd(RMul(t, t), R1)))
             s  == RMul(t, c)
             B  == Force2([i \in 1..n |-> [j \in 1..n |->
                      IF j = p THEN RSub(RMul(c, A[i][p]), RMul(s, A[i][q]))
                      ELSE IF j = q THEN RAdd(RMul(s, A[i][p]), RMul(c, A[i][q]))
                      ELSE A[i][j]]])
         IN Force2([i \in 1..n |-> [j \in 1..n |->
                      IF i = p THEN RSub(RMul(c, B[p][j]), RMul(s, B[q][j]))
                      ELSE IF i = q THEN RAdd(RMul(s, B[p][j]), RMul(c, B[q][j]))
                      ELSE B[i][j]]])
RECURSIVE JacobiSweep(_, _, _)
JacobiSweep(A, p, q) ==
    IF p >= Len(A) THEN A
    ELSE IF q > Len(A) THEN JacobiSweep(A, p + 1, p + 2)
    ELSE JacobiSweep(Rot(A, p, q), p, q + 1)
RECURSIVE JacobiIter(_, _)
JacobiIter(A, k) == IF k = 0 THEN A ELSE JacobiIter(JacobiSweep(A, 1, 2), k - 1)
EigSym(A) ==
    LET D == JacobiIter(A, 12)
        v == VSort([i \in 1..Len(A) |-> D[i][i]])
    IN [i \in 1..Len(A) |-> v[Len(A) + 1 - i]]
=============================================================================
