----------------------------- MODULE MC_Conserve -----------------------------
(* C14: on a ring of cells every flux that leaves a cell enters its          *)
(* neighbour, for all contents with values from a small set.                 *)
EXTENDS QkFlux, FiniteSets
CONSTANTS Vals, N, Broken
VARIABLES ring, vel
At(i) == ring[((i - 1) % N) + 1]
Q(i) == RInt(At(i))
\* face between cells i and i+1, as seen from cell `from`; a broken design reconstructs it differently
FaceState(i, from) == LET l == LeftState(Q(i + N - 1), Q(i), Q(i + 1)) r == RightState(Q(i), Q(i + 1), Q(i + 2))
                      IN IF Broken /\ from = i + 1 THEN <<Q(i), Q(i + 1)>> ELSE <<l, r>>
\* a scalar flux of the Rusanov form with unit speed
Num(i, from) == LET s == TLCEval(FaceState(i, from)) IN Mean(s[1], s[2]) \ominus Jump(R1, s[1], s[2])
Gain(i) == Num(i + N - 1, i + N) \ominus Num(i, i)
AdvG(i) == LET up(j) == UpFlux(RQ(1, 3), Q(j + N - 1), Q(j), Q(j + 1)) dn(j) == UpFlux(RQ(1, 3), Q(j + 1), Q(j), Q(j + N - 1))
           IN IF vel = 1 THEN up(i + N - 1) \ominus up(i) ELSE dn(i + 1) \ominus dn(i)
Init == ring \in [1..N -> Vals] /\ vel \in {0, 1}
Next == FALSE /\ UNCHANGED <<ring, vel>>
FluxSums == RNear(RSum([i \in 1..N |-> Gain(i)]), R0, RInt(100), RDec("1e-12"))
AdvSums == RNear(RSum([i \in 1..N |-> AdvG(i)]), R0, RInt(100), RDec("1e-12"))
Uniform == (\A i \in 1..N : At(i) = At(1)) => \A i \in 1..N : RNear(Gain(i), R0, R1, RDec("1e-12")) /\ RNear(AdvG(i), R0, R1, RDec("1e-12"))
=============================================================================
