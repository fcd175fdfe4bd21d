------------------------------ MODULE MC_Source ------------------------------
(* C16: the source terms on one cell, over all small integer states.         *)
EXTENDS Integers, Sequences, TLC
CONSTANT Vals
VARIABLES p, E, B, rho
V3 == [1..3 -> Vals]
Cyc(d, k) == ((d - 1 + k) % 3) + 1
Cross(x, y) == [d \in 1..3 |-> x[Cyc(d, 1)] * y[Cyc(d, 2)] - x[Cyc(d, 2)] * y[Cyc(d, 1)]]
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Force == [d \in 1..3 |-> rho * E[d] + Cross(p, B)[d]]      \* times charge/mass
Work == Dot(p, E)                                          \* energy source, times charge/mass
Current == [d \in 1..3 |-> -p[d]]                          \* electric source, times charge/(mass eps0)
Init == p \in V3 /\ E \in V3 /\ B \in V3 /\ rho \in {1, 2}
Next == FALSE /\ UNCHANGED <<p, E, B, rho>>
MagneticDoesNoWork == Dot(p, Cross(p, B)) = 0
EnergyBalances == Work + Dot(E, Current) = 0
ForceWork == Dot(p, Force) = rho * Work
=============================================================================
