------------------------------- MODULE QkRange ------------------------------
(* C01: a store of range objects and every edit the class offers.           *)
(* st : slot -> range.  Dimension numbers in operations are 0-based (as in  *)
(* the C++ interface).                                                      *)
EXTENDS QkBase

Put(st, s, r) == (s :> r) @@ st

RangeApply(st, e) ==
  CASE e.op = "reset"     -> <<>>
    [] e.op = "r.new"     -> Put(st, e.s, <<>>)
    [] e.op = "r.dims"    -> Put(st, e.s, [i \in 1..Len(e.d) |-> <<0, e.d[i]>>])
    [] e.op = "r.lu"      -> Put(st, e.s, e.b)
    [] e.op = "r.copy"    -> Put(st, e.s, st[e.t])
    [] e.op = "r.assign"  -> Put(st, e.s, st[e.t])
    [] e.op = "r.resize"  -> Put(st, e.s, st[e.t])
    [] e.op = "r.resizelu"-> Put(st, e.s, e.b)
    [] e.op = "r.extrude" -> Put(st, e.s, Append(st[e.s], <<e.a, e.b>>))
    [] e.op = "r.expand"  -> Put(st, e.s, SetDim(st[e.s], e.d + 1, Lo(st[e.s], e.d + 1) + e.a, Hi(st[e.s], e.d + 1) + e.b))
    [] e.op = "r.shift"   -> Put(st, e.s, SetDim(st[e.s], e.d + 1, Lo(st[e.s], e.d + 1) + e.a, Hi(st[e.s], e.d + 1) + e.a))
    [] e.op = "r.set"     -> Put(st, e.s, SetDim(st[e.s], e.d + 1, e.a, e.b))
    [] OTHER              -> st

\* When an edit is within the contract (existing slots, existing dimension, lower <= upper afterwards)
RangeLegal(st, e) ==
  /\ e.op \in {"r.copy", "r.assign", "r.resize", "r.cmp"} => e.t \in DOMAIN st
  /\ e.op \in {"r.assign", "r.resize", "r.resizelu", "r.extrude", "r.expand", "r.shift", "r.set", "r.cmp", "r.print"} => e.s \in DOMAIN st
  /\ e.op \in {"r.expand", "r.shift", "r.set"} => e.d + 1 \in Dims(st[e.s])
  /\ \A s \in DOMAIN RangeApply(st, e) : IsRange(RangeApply(st, e)[s])

\* What the public accessors must report for range r
RangeView(r) == [nd  |-> Len(r), b |-> r,
                 len |-> [d \in Dims(r) |-> RLen(r, d)],
                 str |-> [d \in Dims(r) |-> Stride(r, d)],
                 vol |-> Volume(r)]
=============================================================================
