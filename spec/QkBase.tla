------------------------------- MODULE QkBase -------------------------------
(* Ranges of quikin, as used by every other module.                         *)
(* A range is a sequence of <<lower, upper>> pairs (upper exclusive), one   *)
(* per dimension.  Storage is row-major: the last dimension is fastest.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ND(r)        == Len(r)
Lo(r, d)     == r[d][1]
Hi(r, d)     == r[d][2]
RLen(r, d)   == r[d][2] - r[d][1]
Dims(r)      == 1..Len(r)

IsRange(r)   == \A d \in Dims(r) : Lo(r, d) <= Hi(r, d)

RECURSIVE SufProd(_, _)
SufProd(r, d) == IF d > Len(r) THEN 1 ELSE RLen(r, d) * SufProd(r, d + 1)

Stride(r, d) == SufProd(r, d + 1)
Volume(r)    == IF Len(r) = 0 THEN 0 ELSE SufProd(r, 1)
Empty(r)     == Len(r) = 0 \/ \E d \in Dims(r) : RLen(r, d) <= 0

Includes(a, b) == /\ Len(a) = Len(b)
                  /\ \A d \in Dims(a) : Lo(a, d) <= Lo(b, d) /\ Hi(b, d) <= Hi(a, d)

RECURSIVE AddrFrom(_, _, _)
AddrFrom(r, x, d) == IF d > Len(r) THEN 0
                     ELSE (x[d] - Lo(r, d)) * Stride(r, d) + AddrFrom(r, x, d + 1)
Address(r, x)  == AddrFrom(r, x, 1)                 \* 0-based storage offset of point x

Unrank(r, k)   == [d \in Dims(r) |-> Lo(r, d) + ((k \div Stride(r, d)) % RLen(r, d))]
Contains(r, x) == Len(r) > 0 /\ Len(x) = Len(r) /\ \A d \in Dims(r) : Lo(r, d) <= x[d] /\ x[d] < Hi(r, d)

\* The points of a range as a set (small ranges only), independent of Unrank
RECURSIVE PointsFrom(_, _)
PointsFrom(r, d) == IF d > Len(r) THEN {<<>>}
                    ELSE {<<c>> \o p : c \in Lo(r, d)..(Hi(r, d) - 1), p \in PointsFrom(r, d + 1)}
Points(r) == IF Len(r) = 0 THEN {} ELSE PointsFrom(r, 1)

\* Row-major (lexicographic) order on points
RECURSIVE LexLess(_, _, _)
LexLess(x, y, d) == IF d > Len(x) THEN FALSE
                    ELSE x[d] < y[d] \/ (x[d] = y[d] /\ LexLess(x, y, d + 1))

SetDim(r, d, lo, hi) == [r EXCEPT ![d] = <<lo, hi>>]

\* Has(e, f): the record e (read from JSON) has field f
Has(e, f) == f \in DOMAIN e
=============================================================================
