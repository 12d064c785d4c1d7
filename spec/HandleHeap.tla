----------------------------- MODULE HandleHeap -----------------------------
(***************************************************************************)
(* Design of weighting configurations: a handle owns two heap cells (the   *)
(* weight and the distance) through raw pointers.  The actions follow the  *)
(* implementation (clone, delete, steal); val is the value each handle is  *)
(* supposed to have.  Invariants: ownership is exclusive, nothing is       *)
(* leaked, no freed cell is reachable, and the heap represents val.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Handles, NCells, Vals
VARIABLES wh, dh, wp, dp, val
vars == <<wh, dh, wp, dp, val>>
Cells == 1..NCells
Free == 0
Null == 0
None == 0
Fresh(H) == CHOOSE c \in Cells : H[c] = Free
HasFresh(H) == \E c \in Cells : H[c] = Free

Init == /\ wh = [c \in Cells |-> Free] /\ dh = [c \in Cells |-> Free]
        /\ wp = [h \in Handles |-> Null] /\ dp = [h \in Handles |-> Null]
        /\ val = [h \in Handles |-> <<None, None>>]

\* release h's cell, then store value v (None: null pointer) in a fresh one
Put(H, P, h, v) ==
    LET H1 == IF P[h] = Null THEN H ELSE [H EXCEPT ![P[h]] = Free] IN
    IF v = None THEN [heap |-> H1, ptr |-> [P EXCEPT ![h] = Null]]
    ELSE LET c == Fresh(H1) IN [heap |-> [H1 EXCEPT ![c] = v], ptr |-> [P EXCEPT ![h] = c]]
Read(H, P, h) == IF P[h] = Null THEN None ELSE H[P[h]]

Construct(h) == \E w \in Vals, d \in Vals :
    LET a == Put(wh, wp, h, w) b == Put(dh, dp, h, d) IN
    /\ wh' = a.heap /\ wp' = a.ptr /\ dh' = b.heap /\ dp' = b.ptr
    /\ val' = [val EXCEPT ![h] = <<w, d>>]
Destroy(h) ==
    LET a == Put(wh, wp, h, None) b == Put(dh, dp, h, None) IN
    /\ wh' = a.heap /\ wp' = a.ptr /\ dh' = b.heap /\ dp' = b.ptr
    /\ val' = [val EXCEPT ![h] = <<None, None>>]
Copy(h, g) ==
    IF h = g THEN UNCHANGED vars
    ELSE LET a == Put(wh, wp, h, Read(wh, wp, g)) b == Put(dh, dp, h, Read(dh, dp, g)) IN
         /\ wh' = a.heap /\ wp' = a.ptr /\ dh' = b.heap /\ dp' = b.ptr
         /\ val' = [val EXCEPT ![h] = val[g]]
Move(h, g) ==
    IF h = g THEN UNCHANGED vars
    ELSE LET a == Put(wh, wp, h, None) b == Put(dh, dp, h, None) IN
         /\ wh' = a.heap /\ wp' = [a.ptr EXCEPT ![h] = wp[g], ![g] = Null]
         /\ dh' = b.heap /\ dp' = [b.ptr EXCEPT ![h] = dp[g], ![g] = Null]
         /\ val' = [val EXCEPT ![h] = val[g], ![g] = <<None, None>>]
\* set the weight from a reference to g's weight (possibly h's own): clone first, then delete
SetWeightFrom(h, g) ==
    /\ wp[g] # Null
    /\ HasFresh(wh)
    /\ LET v == Read(wh, wp, g)
           c == Fresh(wh)
           H1 == [wh EXCEPT ![c] = v]
           H2 == IF wp[h] = Null THEN H1 ELSE [H1 EXCEPT ![wp[h]] = Free]
       IN wh' = H2 /\ wp' = [wp EXCEPT ![h] = c] /\ val' = [val EXCEPT ![h][1] = v]
    /\ UNCHANGED <<dh, dp>>
\* change the value in place through the pointer a handle hands out
Mutate(h) == \E v \in Vals :
    /\ wp[h] # Null
    /\ wh' = [wh EXCEPT ![wp[h]] = v]
    /\ val' = [val EXCEPT ![h][1] = v]
    /\ UNCHANGED <<dh, wp, dp>>
Next == \E h \in Handles : \/ Construct(h) \/ Destroy(h) \/ Mutate(h)
                           \/ \E g \in Handles : Copy(h, g) \/ Move(h, g) \/ SetWeightFrom(h, g)
Spec == Init /\ [][Next]_vars

Exclusive == \A h, g \in Handles : h # g => (wp[h] # Null => wp[h] # wp[g]) /\ (dp[h] # Null => dp[h] # dp[g])
NoLeak == /\ \A c \in Cells : wh[c] # Free => \E h \in Handles : wp[h] = c
          /\ \A c \in Cells : dh[c] # Free => \E h \in Handles : dp[h] = c
NoDangling == \A h \in Handles : (wp[h] # Null => wh[wp[h]] # Free) /\ (dp[h] # Null => dh[dp[h]] # Free)
Represents == \A h \in Handles : val[h] = <<Read(wh, wp, h), Read(dh, dp, h)>>
=============================================================================
