---------------------------- MODULE MC_RangeSet -----------------------------
EXTENDS QkRangeSet
CONSTANTS MaxL1, MaxN1, MaxL2, MaxN2, Mode
VARIABLES b, n, done
Init == /\ done = FALSE
        /\ \/ b \in {<<<<lo, lo + L>>>> : lo \in {-3, 0, 5}, L \in 0..MaxL1} /\ n \in [1..1 -> 1..MaxN1]
           \/ b \in {<<<<lo, lo + L>>, <<0, M>>>> : lo \in {-2, 1}, L \in 0..MaxL2, M \in 0..MaxL2} /\ n \in [1..2 -> 1..MaxN2]
           \/ b \in {<<<<-1, -1 + L>>, <<0, M>>, <<2, 2 + K>>>> : L \in 0..2, M \in 1..2, K \in 1..3} /\ n \in [1..3 -> 1..3]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<b, n>>
\* by points: every point of b lies in exactly one sub-range
ByPoints(subs) ==
  /\ \A x \in Points(b) : Cardinality({k \in 1..Len(subs) : Contains(subs[k], x)}) = 1
  /\ \A k \in 1..Len(subs) : Points(subs[k]) \subseteq Points(b)
Inv == LET subs == Split(b, n, Mode) IN IsDecomposition(b, n, Grid(n), subs) /\ ByPoints(subs)
\* the relational definition implies the statement by points, whatever the decomposition
Rel == \A m \in {"ceil", "floor", "raw"} : LET subs == Split(b, n, m) IN IsDecomposition(b, n, Grid(n), subs) => ByPoints(subs)
=============================================================================
