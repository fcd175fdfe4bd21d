------------------------------ MODULE MC_Chunk ------------------------------
(* The strips tile: every storage point outside of the mesh along exactly   *)
(* one dimension lies in exactly one ghost strip, etc.                      *)
EXTENDS QkChunk
CONSTANTS Lens, Gs, MaxDims, NData
VARIABLES mesh, g, done
data == <<<<0, 1>>, <<0, NData>>>>
Init == /\ done = FALSE /\ g \in Gs
        /\ mesh \in {[d \in 1..n |-> <<lo, lo + len[d]>>] : n \in 1..MaxDims, lo \in {-1, 0}, len \in [1..MaxDims -> Lens]}
        /\ \A d \in Dims(mesh) : RLen(mesh, d) >= g
Next == ~done /\ done' = TRUE /\ UNCHANGED <<mesh, g>>
Outside(x) == {d \in Dims(mesh) : x[d] < Lo(mesh, d) \/ x[d] >= Hi(mesh, d)}
Inv ==
  LET S == Storage(mesh, data, g) I == Interior(mesh, data)
      le == [d \in Dims(mesh) |-> LowerExt(mesh, data, g, d)] ue == [d \in Dims(mesh) |-> UpperExt(mesh, data, g, d)]
      li == [d \in Dims(mesh) |-> LowerInt(mesh, data, g, d)] ui == [d \in Dims(mesh) |-> UpperInt(mesh, data, g, d)]
  IN
  /\ \A x \in Points(S) :
       /\ Outside(x) = {} <=> Contains(I, x)
       /\ \A d \in Dims(mesh) : Outside(x) = {d} <=> (Contains(le[d], x) \/ Contains(ue[d], x))
       /\ Cardinality({d \in Dims(mesh) : Contains(le[d], x)}) + Cardinality({d \in Dims(mesh) : Contains(ue[d], x)}) <= 1
       /\ \A d \in Dims(mesh) : (Contains(li[d], x) \/ Contains(ui[d], x)) => Contains(I, x)
  /\ \A d \in Dims(mesh) : /\ Includes(S, le[d]) /\ Includes(S, ue[d]) /\ Includes(I, li[d]) /\ Includes(I, ui[d])
                           /\ Volume(le[d]) = Volume(li[d]) /\ Volume(ue[d]) = Volume(ui[d])
  \* components vary fastest
  /\ \A x \in Points(S) : \A c \in 0..(NData - 1) : Address(S, [x EXCEPT ![Len(S)] = c]) = Address(S, [x EXCEPT ![Len(S)] = 0]) + c
=============================================================================
