------------------------------- MODULE QkArray ------------------------------
(* C03: a store of arrays and every operation that moves elements.          *)
(* An array is [k, b, v]: kind ("i" int, "d" double, "c" datachunk,         *)
(* "h" shared datachunk), bounds b and contents v in storage order (1-based *)
(* sequence).  ANY marks contents the contract leaves open.                 *)
EXTENDS QkBase

ANY == 2000000001
At(a, x) == a.v[Address(a.b, x) + 1]

\* dst with the elements of range `to` replaced by those of src in `from`, k-th by k-th in row-major order
CopyRange(src, from, dst, to) ==
  [dst EXCEPT !.v = [i \in 1..Volume(dst.b) |->
     LET x == Unrank(dst.b, i - 1) IN
     IF Contains(to, x) THEN At(src, Unrank(from, Address(to, x))) ELSE dst.v[i]]]
FillRange(a, r, val) ==
  [a EXCEPT !.v = [i \in 1..Volume(a.b) |-> IF Contains(r, Unrank(a.b, i - 1)) THEN val ELSE a.v[i]]]
MulRange(a, r, val) ==
  [a EXCEPT !.v = [i \in 1..Volume(a.b) |-> IF Contains(r, Unrank(a.b, i - 1)) THEN val * a.v[i] ELSE a.v[i]]]
Blank(k, b) == [k |-> k, b |-> b, v |-> [i \in 1..Volume(b) |-> 0]]

ArrRejects(st, e) ==
  CASE e.op = "a.fillr" -> ~Includes(st[e.s].b, e.r)
    [] e.op \in {"a.pullr", "a.copyto"} -> \/ Volume(e.from) # Volume(e.to)
                                          \/ ~Includes(st[e.t].b, e.from)
                                          \/ ~Includes(st[e.s].b, e.to)
    [] e.op \in {"a.pull", "a.swap", "a.fullcopy"} -> Volume(st[e.s].b) # Volume(st[e.t].b)
    [] OTHER -> FALSE

ArrApply(st, e) ==
  IF e.op = "reset" THEN <<>> ELSE
  IF ArrRejects(st, e) THEN st ELSE
  CASE e.op = "a.new"   -> (e.s :> Blank(e.k, e.b)) @@ st
    [] e.op = "a.copy"  -> (e.s :> st[e.t]) @@ st
    [] e.op = "a.assign"-> (e.s :> [st[e.t] EXCEPT !.k = st[e.s].k]) @@ st
    [] e.op = "a.resize"-> (e.s :> IF e.b = st[e.s].b THEN st[e.s]
                                   ELSE IF Volume(st[e.s].b) = 0 THEN Blank(st[e.s].k, e.b)
                                   ELSE [st[e.s] EXCEPT !.b = e.b, !.v = [i \in 1..Volume(e.b) |-> ANY]]) @@ st
    [] e.op = "a.fill"  -> (e.s :> [st[e.s] EXCEPT !.v = [i \in 1..Volume(st[e.s].b) |-> e.v]]) @@ st
    [] e.op = "a.fillr" -> (e.s :> FillRange(st[e.s], e.r, e.v)) @@ st
    [] e.op = "a.mul"   -> (e.s :> MulRange(st[e.s], e.r, e.v)) @@ st
    [] e.op \in {"a.pullr", "a.copyto"} -> (e.s :> CopyRange(st[e.t], e.from, st[e.s], e.to)) @@ st
    [] e.op \in {"a.pull", "a.fullcopy"} -> (e.s :> [st[e.s] EXCEPT !.v = st[e.t].v]) @@ st
    [] e.op = "a.swap"  -> (e.s :> [st[e.s] EXCEPT !.v = st[e.t].v]) @@ (e.t :> [st[e.t] EXCEPT !.v = st[e.s].v]) @@ st
    [] e.op = "a.wr"    -> (e.s :> [st[e.s] EXCEPT !.v = [st[e.s].v EXCEPT ![Address(st[e.s].b, e.x) + 1] = e.v]]) @@ st
    [] OTHER -> st

Disjoint(a, b) == Len(a) # Len(b) \/ \E d \in Dims(a) : Hi(a, d) <= Lo(b, d) \/ Hi(b, d) <= Lo(a, d)
IsChunk(a) == a.k \in {"c", "h"}
ArrLegal(st, e) ==
  /\ e.op # "a.new" /\ e.op # "a.copy" => e.s \in DOMAIN st
  /\ e.op \in {"a.copy", "a.assign", "a.pullr", "a.pull", "a.swap", "a.copyto", "a.fullcopy"} => e.t \in DOMAIN st
  /\ e.op \in {"a.assign", "a.pullr", "a.pull", "a.swap"} => (st[e.s].k = "i") = (st[e.t].k = "i")
  /\ e.op = "a.assign" => (IsChunk(st[e.s]) => IsChunk(st[e.t]))
  /\ e.op \in {"a.copyto", "a.fullcopy"} => IsChunk(st[e.s]) /\ IsChunk(st[e.t])
  /\ e.op = "a.mul" => IsChunk(st[e.s]) /\ Includes(st[e.s].b, e.r)
                       /\ \A i \in 1..Len(st[e.s].v) : st[e.s].v[i] * e.v \in (-1000000)..1000000
  /\ e.op \in {"a.pullr", "a.copyto"} /\ e.s = e.t => e.from = e.to \/ Disjoint(e.from, e.to)
  /\ e.op = "a.fullcopy" => e.s # e.t
  /\ e.op = "a.wr" => Contains(st[e.s].b, e.x)
=============================================================================
