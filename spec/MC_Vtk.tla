------------------------------- MODULE MC_Vtk --------------------------------
(* C20: the VTK order enumerates the interior exactly once, the first        *)
(* dimension fastest, and never leaves it.                                   *)
EXTENDS QkBase
CONSTANTS MaxDims, MaxLen
VARIABLE mesh
RECURSIVE VtkCoord(_, _, _)
VtkCoord(ms, n, d) == IF d > Len(ms) THEN <<>> ELSE <<Lo(ms, d) + (n % RLen(ms, d))>> \o VtkCoord(ms, n \div RLen(ms, d), d + 1)
Init == \E n \in 1..MaxDims : \E L \in [1..n -> 1..MaxLen] : mesh = [d \in 1..n |-> <<d - 2, d - 2 + L[d]>>]
Next == FALSE /\ UNCHANGED mesh
Rev(x) == [d \in 1..Len(x) |-> x[Len(x) + 1 - d]]
Bijective == {VtkCoord(mesh, n, 1) : n \in 0..(Volume(mesh) - 1)} = Points(mesh)
FirstFastest == \A n \in 1..(Volume(mesh) - 1) : LexLess(Rev(VtkCoord(mesh, n - 1, 1)), Rev(VtkCoord(mesh, n, 1)), 1)
=============================================================================
