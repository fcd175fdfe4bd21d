------------------------------- MODULE QkReal -------------------------------
(* Real numbers as IEEE doubles, written <<high 32 bits, low 32 bits>>.     *)
(* TLC has no reals and only 32-bit integers; the operators below are the   *)
(* usual arithmetic operations, evaluated by QkReal.java (a TLC operator    *)
(* override).  Only primitive arithmetic lives there; every formula of the  *)
(* specification is written in TLA+ in terms of these operators.            *)
EXTENDS Integers
Overridden == CHOOSE x \in {} : TRUE     \* evaluated only if the override is missing
RInt(n) == Overridden              \* the integer n
RQ(n, m) == Overridden             \* the quotient of two integers
RDec(s) == Overridden              \* a decimal literal
RAdd(a, b) == Overridden
RSub(a, b) == Overridden
RMul(a, b) == Overridden
RDiv(a, b) == Overridden
RNeg(a) == Overridden
RAbs(a) == Overridden
RSqrt(a) == Overridden
RExp(a) == Overridden
RSin(a) == Overridden
RCos(a) == Overridden
RTanh(a) == Overridden
RCosh(a) == Overridden
RPow(a, b) == Overridden
RMax(a, b) == Overridden
RLt(a, b) == Overridden
RLe(a, b) == Overridden
REq(a, b) == Overridden            \* numeric equality (so -0 = 0)
RFinite(a) == Overridden
RSame(a, b) == REq(a, b) \/ (~REq(a, a) /\ ~REq(b, b))       \* numerically equal, or neither a number
RNear(a, b, scale, tol) == Overridden   \* |a - b| <= tol * scale
RShow(a) == Overridden             \* decimal text, for reports only
RSum(s) == Overridden              \* sum of a sequence
RSumAbs(s) == Overridden           \* sum of the absolute values
\* infix forms
a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RHalf == RQ(1, 2)
=============================================================================
