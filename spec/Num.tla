-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Decimal numbers for TLC (whose own integers are 32 bit).  A number is a  *)
(* string ("0.8", "-1.25e-3") or a TLC integer; "nan" stands for every      *)
(* non-finite value, absorbs under arithmetic and makes every comparison    *)
(* FALSE.  The operators are given meaning by java/Num.java (40 significant *)
(* digits); the bodies below are only there so the module parses.           *)
(* Module NumTest checks the override against TLC's own integers.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
NAdd(a, b) == "nan"
NSub(a, b) == "nan"
NMul(a, b) == "nan"
NDiv(a, b) == "nan"                 \* division by zero is "nan"
NSqrt(a) == "nan"
NExp(a) == "nan"
NLn(a) == "nan"
NLt(a, b) == FALSE
NLe(a, b) == FALSE
NEq(a, b) == FALSE
NIsNum(a) == FALSE
NNear(a, b, tol) == FALSE           \* |a-b| <= tol*(1+max(|a|,|b|))
NTrunc(a) == 0                      \* towards zero, a TLC integer
NRound(a) == 0                      \* half to even, a TLC integer
NSum(s) == "nan"
NDot(s, t) == "nan"
NSeqNear(s, t, tol) == FALSE        \* equal length and element-wise NNear

TOL == "1e-9"
Near(a, b) == NNear(a, b, TOL)
SeqNear(s, t) == NSeqNear(s, t, TOL)
NPos(a) == NLt(0, a)
NNonNeg(a) == NLe(0, a)
NZero(a) == NEq(a, 0)
NSq(a) == NMul(a, a)
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a
NAbs(a) == IF NLt(a, 0) THEN NSub(0, a) ELSE a
NBetween(lo, x, hi) == NLe(lo, x) /\ NLt(x, hi)     \* lo <= x < hi
=============================================================================
