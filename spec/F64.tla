-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers as TLA+ values.                       *)
(*                                                                         *)
(* A number is the pair <<hi, lo>> of the two 32-bit halves of its bit     *)
(* pattern (TLC integers are 32 bits wide), so numbers can be stored in    *)
(* states, compared with = for bit equality, and read from JSON traces.    *)
(* The primitive operators below have no TLA+ body TLC could evaluate:     *)
(* each is overridden by the method of the same name in F64.java, and that *)
(* class (40 one-line methods over Java doubles) is part of the trusted    *)
(* base.  Everything built from them (vectors, matrices, kernels, models)  *)
(* is ordinary TLA+.                                                       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL Prim == CHOOSE x \in {} : TRUE

RInt(i)      == Prim     \* integer to number
RDec(s)      == Prim     \* decimal literal (string) to number
RSplit(s)    == Prim     \* the comma-separated parts of a string
RToInt(a)    == Prim     \* truncation to integer
RStr(a)      == Prim     \* printable form
RAdd(a, b)   == Prim
RSub(a, b)   == Prim
RMul(a, b)   == Prim
RDiv(a, b)   == Prim
RNeg(a)      == Prim
RAbs(a)      == Prim
RSqrt(a)     == Prim
RExp(a)      == Prim
RLog(a)      == Prim
RSin(a)      == Prim
RCos(a)      == Prim
RTan(a)      == Prim
RAtan(a)     == Prim
RPow(a, b)   == Prim
RFloor(a)    == Prim
RRound(a)    == Prim     \* half away from zero
RLgamma(a)   == Prim     \* log of the gamma function
RLt(a, b)    == Prim
RLe(a, b)    == Prim
RMax(a, b)   == Prim
RMin(a, b)   == Prim
RFinite(a)   == Prim
RNaN(a)      == Prim
\* |a - b| <= abs + rel * max(|a|, |b|), equal infinities are near, NaN is near NaN only
RNear(a, b, rel, abs) == Prim
\* forces a lazily represented function with domain 1..n into a tuple
Force(f)     == Prim
\* Force applied two levels deep
Force2(f)    == Prim
\* the deterministic pseudo random number in [0,1) with index i of stream s
RRand(s, i)  == Prim
=============================================================================
