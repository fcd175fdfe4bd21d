------------------------------- MODULE MC_Grid -------------------------------
(* C19: structured grids under any sequence of biasing, in exact rationals   *)
(* (spacings are integers; the width of a dimension is their sum).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Steps, Broken
VARIABLES dx, w, n
\* dx: spacings of two dimensions (w: their widths); biasing replaces them by another positive tiling
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Tilings(k, tot) == {s \in [1..k -> 1..tot] : Sum(s) = tot}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Init == dx = [d \in 1..2 |-> [i \in 1..N |-> 2]] /\ w = [d \in 1..2 |-> 2 * N] /\ n = 0
Sym(d) == N % 2 = 0 /\ \E half \in Tilings(N \div 2, w[d] \div 2) : dx' = [dx EXCEPT ![d] = half \o Rev(half)]
Lin(d) == \E s \in Tilings(N, w[d]) : dx' = [dx EXCEPT ![d] = IF Broken THEN [s EXCEPT ![N] = s[N] + 1] ELSE s]
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED w /\ \E d \in 1..2 : Sym(d) \/ Lin(d)
\* centres doubled, to stay in integers
RECURSIVE Cen(_, _)
Cen(s, i) == IF i = 1 THEN s[1] ELSE Cen(s, i - 1) + s[i - 1] + s[i]
Tiles == \A d \in 1..2 : /\ Sum(dx[d]) = w[d] /\ \A i \in 1..N : dx[d][i] > 0
                         /\ Cen(dx[d], N) + dx[d][N] = 2 * w[d]
                         /\ \A i \in 2..N : Cen(dx[d], i - 1) < Cen(dx[d], i)
Alone == [][Cardinality({d \in 1..2 : dx'[d] # dx[d]}) <= 1]_<<dx, w, n>>
=============================================================================
