------------------------------ MODULE QkIndexer -----------------------------
(* C02: iterators over a sub-range of an enclosing range.                   *)
(* An iterator is [sup, sub, ex, x]; x is meaningful while ex holds.        *)
EXTENDS QkBase

NoIter == [sup |-> <<>>, sub |-> <<>>, ex |-> FALSE, x |-> <<>>]
First(sub) == [d \in Dims(sub) |-> Lo(sub, d)]
LastOf(sub) == [d \in Dims(sub) |-> Hi(sub, d) - 1]
MkIter(sub, sup) ==
  LET ok == Len(sup) > 0 /\ Includes(sup, sub) /\ ~Empty(sub)
  IN [sup |-> sup, sub |-> sub, ex |-> ok, x |-> IF ok THEN First(sub) ELSE <<>>]

\* Successor in row-major order: the last dimension that is not at its end advances,
\* the dimensions after it restart
CanStep(sub, x) == {d \in Dims(sub) : x[d] < Hi(sub, d) - 1}
Succ(it) ==
  LET C == CanStep(it.sub, it.x) IN
  IF C = {} THEN [it EXCEPT !.ex = FALSE, !.x = <<>>]
  ELSE LET p == CHOOSE d \in C : \A c \in C : c <= d
       IN [it EXCEPT !.x = [d \in Dims(it.sub) |-> IF d < p THEN it.x[d]
                                                   ELSE IF d = p THEN it.x[d] + 1
                                                   ELSE Lo(it.sub, d)]]
Move(it, d, k) == [it EXCEPT !.x = [it.x EXCEPT ![d] = it.x[d] + k]]
DimOk(it, d) == d + 1 \in Dims(it.sup)

IterView(it) == IF ~it.ex THEN [ex |-> FALSE]
                ELSE [ex |-> TRUE, x |-> it.x, y |-> it.x, lin |-> Address(it.sup, it.x),
                      fin |-> Address(it.sup, LastOf(it.sub)) + 1, sup |-> it.sup]

IterRejects(st, e) == e.op \in {"i.inc", "i.dec", "i.get", "i.get2"} /\ ~DimOk(st[e.s], e.d)
IterApply(st, e) ==
  IF e.op = "reset" THEN <<>> ELSE
  IF IterRejects(st, e) THEN st ELSE
  CASE e.op = "i.new"    -> (e.s :> MkIter(e.sub, e.sup)) @@ st
    [] e.op = "i.def"    -> (e.s :> NoIter) @@ st
    [] e.op = "i.copy"   -> (e.s :> st[e.t]) @@ st
    [] e.op = "i.assign" -> (e.s :> st[e.t]) @@ st
    [] e.op = "i.next"   -> (e.s :> Succ(st[e.s])) @@ st
    [] e.op = "i.pp"     -> (e.s :> Succ(st[e.s])) @@ st
    [] e.op = "i.inc"    -> (e.s :> Move(st[e.s], e.d + 1, 1)) @@ st
    [] e.op = "i.dec"    -> (e.s :> Move(st[e.s], e.d + 1, -1)) @@ st
    [] OTHER -> st
\* Stepping past the end, or from outside of the sub-range, is not part of the contract
IterLegal(st, e) ==
  /\ e.op \in {"i.copy", "i.assign"} => e.t \in DOMAIN st
  /\ e.op \in {"i.assign", "i.next", "i.pp", "i.inc", "i.dec", "i.get", "i.get2"} => e.s \in DOMAIN st
  /\ e.op \in {"i.next", "i.pp"} => st[e.s].ex /\ Contains(st[e.s].sub, st[e.s].x)
  /\ e.op \in {"i.inc", "i.dec", "i.get", "i.get2"} => st[e.s].ex \/ ~DimOk(st[e.s], e.d)

\* A complete traversal: k-th visited point (k from 0)
WalkCount(sub, sup) == IF MkIter(sub, sup).ex THEN Volume(sub) ELSE 0
WalkPoint(sub, k) == Unrank(sub, k)
=============================================================================
