----------------------------- MODULE QkRangeSet -----------------------------
(* C04: decomposition of a range into a grid of sub-ranges.                 *)
EXTENDS QkBase
Ceil(a, n) == (a + n - 1) \div n
Min2(a, b) == IF a < b THEN a ELSE b

\* What every decomposition has to satisfy.  subs: sequence of ranges, one per
\* position of the grid of subdivisions n (row-major).
Grid(n) == [d \in 1..Len(n) |-> <<0, n[d]>>]
IvOk(p, iv) ==    \* iv: set of <<position, lower, upper>>, the non-empty intervals along one dimension with bounds p
  LET before(a, b) == a[1] < b[1] IN
  \/ p[1] = p[2] /\ iv = {}
  \/ /\ iv # {}
     /\ \A a, b \in iv : a[1] = b[1] => a = b
     /\ \E a \in iv : a[2] = p[1] /\ \A b \in iv : a = b \/ before(a, b)
     /\ \E a \in iv : a[3] = p[2] /\ \A b \in iv : a = b \/ before(b, a)
     /\ \A a, b \in iv : before(a, b) /\ (~\E c \in iv : before(a, c) /\ before(c, b)) => a[3] = b[2]
     /\ LET last == CHOOSE a \in iv : \A b \in iv : a = b \/ before(b, a)
        IN \A a, b \in iv \ {last} : a[3] - a[2] = b[3] - b[2]
IsDecomposition(b, n, shape, subs) ==
  LET gr == Grid(n) IN
  /\ shape = gr
  /\ Len(subs) = Volume(gr)
  /\ \A k \in 1..Len(subs) : IsRange(subs[k]) /\ Includes(b, subs[k])
  /\ LET full == {k \in 1..Len(subs) : ~Empty(subs[k])}
         pos == [k \in 1..Len(subs) |-> Unrank(gr, k - 1)]
         ivs == [d \in 1..Len(b) |-> {<<pos[k][d], Lo(subs[k], d), Hi(subs[k], d)>> : k \in full}]
     IN IF Empty(b) THEN full = {}
        ELSE /\ \A d \in Dims(b) : IvOk(b[d], ivs[d])
             \* every combination of used positions is there (so the product of the intervals covers b)
             /\ \A k \in 1..Len(subs) : (\A d \in Dims(b) : \E v \in ivs[d] : v[1] = pos[k][d]) => k \in full

\* One decomposition: blocks of ceil(length / n) (MODE "ceil"; "floor" and "raw" are negative controls)
Cut(p, n, i, mode) ==
  LET L == p[2] - p[1]
      s == IF mode = "floor" THEN L \div n ELSE Ceil(L, n)
      lo == IF mode = "raw" THEN p[1] + i * s ELSE Min2(p[1] + i * s, p[2])
  IN <<lo, Min2(lo + s, p[2])>>
Split(b, n, mode) == LET gr == Grid(n) IN
  [k \in 1..Volume(gr) |-> [d \in Dims(b) |-> Cut(b[d], n[d], Unrank(gr, k - 1)[d], mode)]]
=============================================================================
