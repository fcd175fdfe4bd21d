------------------------------ MODULE QkChunk -------------------------------
(* C05: geometry of a chunk with g ghost layers on the cells `mesh`, with   *)
(* the data dimensions `data` (basis points, components).                   *)
EXTENDS QkBase
Grown(mesh, g)      == [d \in Dims(mesh) |-> <<Lo(mesh, d) - g, Hi(mesh, d) + g>>]
Storage(mesh, data, g) == Grown(mesh, g) \o data
Interior(mesh, data)   == mesh \o data
LowerExt(mesh, data, g, d) == SetDim(mesh, d, Lo(mesh, d) - g, Lo(mesh, d)) \o data
LowerInt(mesh, data, g, d) == SetDim(mesh, d, Lo(mesh, d), Lo(mesh, d) + g) \o data
UpperInt(mesh, data, g, d) == SetDim(mesh, d, Hi(mesh, d) - g, Hi(mesh, d)) \o data
UpperExt(mesh, data, g, d) == SetDim(mesh, d, Hi(mesh, d), Hi(mesh, d) + g) \o data
RangeShow(r) == [nd |-> Len(r), b |-> r, len |-> [d \in Dims(r) |-> RLen(r, d)],
                 str |-> [d \in Dims(r) |-> Stride(r, d)], vol |-> Volume(r)]
\* A chunk: [mesh, data, g, v]; v: contents in storage order, or <<>> when all zero, or "any"
GeometryShown(c, o) ==
  /\ o.rng = RangeShow(Storage(c.mesh, c.data, c.g))
  /\ o.in = Interior(c.mesh, c.data)
  /\ o.g = c.g
  /\ o.nv = Volume(Storage(c.mesh, c.data, c.g)) /\ o.same
  /\ \A d \in Dims(c.mesh) :
       /\ o.le[d] = LowerExt(c.mesh, c.data, c.g, d)
       /\ o.ue[d] = UpperExt(c.mesh, c.data, c.g, d)
       /\ RLen(c.mesh, d) >= c.g => o.li[d] = LowerInt(c.mesh, c.data, c.g, d) /\ o.ui[d] = UpperInt(c.mesh, c.data, c.g, d)
=============================================================================
