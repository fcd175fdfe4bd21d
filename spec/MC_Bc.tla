------------------------------- MODULE MC_Bc --------------------------------
(* Boundary conditions are applied dimension by dimension, strip by strip.  *)
(* Whatever the order of the listed dimensions, the outcome is the one      *)
(* BcOk describes, and applying the condition again changes nothing.        *)
EXTENDS QkSystem
CONSTANTS Kinds, Shapes, NC, Broken
VARIABLES kind, mesh, list, todo, v0, v
vars5 == <<kind, mesh, list, todo, v0, v>>
G(ms) == LET S == Storage(ms, <<<<0, 1>>, <<0, NC>>>>, NG) IN
  [mesh |-> ms, n |-> Len(ms), S |-> S, vol |-> Volume(S), str |-> TLCEval([d \in Dims(S) |-> Stride(S, d)]), nc |-> NC, np |-> 1]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)      \* shapes are written 23 for 2 x 3 cells
MeshOf(s) == LET L == Digits(s) IN [d \in 1..Len(L) |-> <<d - 2, d - 2 + L[d]>>]
\* one dimension: ghost strips of d (inside the mesh along all others) take the source cells
\* Broken: the strips span the whole storage of the other dimensions / the layers are not reversed
ApplyDim(g, kd, d, u) ==
  TLCEval([k \in 1..g.vol |->
    LET x == Coord(g, k) o == OutDims(g, x) IN
    IF (IF Broken = "corner" THEN d \in o ELSE o = {d})
    THEN LET src == u[Elem(g, IF Broken = "layers" /\ kd # "bc_periodic"
                              THEN [x EXCEPT ![d] = IF x[d] < Lo(g.mesh, d) THEN x[d] + NG ELSE x[d] - NG]
                              ELSE Source(kd, g.mesh, x, d))]
         IN IF x[g.n + 2] \in Reversed(kd, d) THEN RNeg(src) ELSE src
    ELSE u[k]])
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(g, kd, ds, u) == IF ds = <<>> THEN u ELSE ApplyAll(g, kd, Tail(ds), ApplyDim(g, kd, Head(ds), u))
Lists(n) == UNION {[1..k -> 1..n] : k \in 0..(n + 1)}
Init == /\ kind \in Kinds
        /\ \E s \in Shapes : mesh = MeshOf(s)
        /\ list \in Lists(Len(mesh))
        /\ todo = list
        /\ v0 = TLCEval([k \in 1..G(mesh).vol |-> RInt(k)])
        /\ v = v0
Next == /\ todo # <<>>
        /\ v' = ApplyDim(G(mesh), kind, Head(todo), v)
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<kind, mesh, list, v0>>
ListDims == {list[i] : i \in 1..Len(list)}
Outcome == todo = <<>> => BcOk(G(mesh), kind, ListDims, v0, v)
Idempotent == todo = <<>> => ApplyAll(G(mesh), kind, list, v) = v
InteriorKept == \A k \in 1..G(mesh).vol : IsInterior(G(mesh), Coord(G(mesh), k)) => v[k] = v0[k]
=============================================================================
