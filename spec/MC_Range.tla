------------------------------ MODULE MC_Range ------------------------------
(* Exhaustive model of the range store with small constants, and (with      *)
(* hist) the generator of random edit histories for the conformance check.  *)
EXTENDS QkRange, Json, Randomization
CONSTANTS Slots, MaxDims, NegB, MaxB, HistLen
VARIABLES st, hist, bad
B == (-NegB)..MaxB
Pairs == {p \in B \X B : p[1] <= p[2]}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

Ops1(s) ==   {[op |-> "r.new", s |-> s]}
        \cup {[op |-> "r.dims", s |-> s, d |-> d] : d \in Seqs(0..MaxB, MaxDims)}
        \cup {[op |-> "r.lu", s |-> s, b |-> b] : b \in Seqs(Pairs, MaxDims)}
Ops2(s) ==   {[op |-> o, s |-> s, t |-> t] : o \in {"r.copy", "r.assign", "r.resize", "r.cmp"}, t \in Slots}
        \cup {[op |-> "r.extrude", s |-> s, a |-> p[1], b |-> p[2]] : p \in Pairs}
        \cup {[op |-> "r.expand", s |-> s, d |-> d, a |-> a, b |-> b] : d \in 0..(MaxDims - 1), a \in {-1, 0, 2}, b \in {-1, 0, 1}}
        \cup {[op |-> "r.shift", s |-> s, d |-> d, a |-> a] : d \in 0..(MaxDims - 1), a \in {-2, 1}}
        \cup {[op |-> "r.set", s |-> s, d |-> d, a |-> p[1], b |-> p[2]] : d \in 0..(MaxDims - 1), p \in Pairs}
AllOps == UNION {Ops1(s) \cup Ops2(s) : s \in Slots}

Small(f) == \A s \in DOMAIN f : Len(f[s]) <= MaxDims /\ \A d \in Dims(f[s]) : Lo(f[s], d) \in B /\ Hi(f[s], d) \in B

Step(e) == /\ RangeLegal(st, e)
           /\ Small(RangeApply(st, e))
           /\ st' = RangeApply(st, e)
Init == st = <<>> /\ hist = <<>> /\ bad = FALSE
Next == \E e \in AllOps : Step(e) /\ UNCHANGED <<hist, bad>>

\* ---- design properties (C01)
Inv ==
  \A s \in DOMAIN st : LET r == st[s] IN
    /\ IsRange(r)
    /\ Volume(r) = Cardinality(Points(r))                       \* volume counts the points
    /\ \A k \in 0..(Volume(r) - 1) : Address(r, Unrank(r, k)) = k   \* strides enumerate storage
    /\ \A x \in Points(r) : Unrank(r, Address(r, x)) = x
    /\ \A x, y \in Points(r) : LexLess(x, y, 1) <=> Address(r, x) < Address(r, y)
Inv2 ==
  \A s, t \in DOMAIN st : LET a == st[s] b == st[t] IN
    /\ (Includes(a, b) /\ Includes(b, a)) <=> a = b
    /\ (Includes(a, b) => Points(b) \subseteq Points(a))
\* an edit changes no other object
FrameProp == [][\E s \in Slots : \A t \in DOMAIN st : t # s => st'[t] = st[t]]_st

\* ---- history generation (simulation mode)
ROp(s, t, k, d, p, n) ==
       LET bs == [i \in 1..n |-> RandomElement(Pairs)]
       IN CASE k = 1 -> [op |-> "r.new", s |-> s]
            [] k = 2 -> [op |-> "r.dims", s |-> s, d |-> [i \in 1..n |-> RandomElement(0..MaxB)]]
            [] k = 3 -> [op |-> "r.lu", s |-> s, b |-> bs]
            [] k = 4 -> [op |-> "r.copy", s |-> s, t |-> t]
            [] k = 5 -> [op |-> "r.assign", s |-> s, t |-> t]
            [] k = 6 -> [op |-> "r.resize", s |-> s, t |-> t]
            [] k = 7 -> [op |-> "r.resizelu", s |-> s, b |-> bs]
            [] k = 8 -> [op |-> "r.extrude", s |-> s, a |-> p[1], b |-> p[2]]
            [] k = 9 -> [op |-> "r.expand", s |-> s, d |-> d, a |-> RandomElement(-3..3), b |-> RandomElement(-3..3)]
            [] k = 10 -> [op |-> "r.shift", s |-> s, d |-> d, a |-> RandomElement(-4..4)]
            [] k = 11 -> [op |-> "r.set", s |-> s, d |-> d, a |-> p[1], b |-> p[2]]
            [] k = 12 -> [op |-> "r.cmp", s |-> s, t |-> t]
            [] k = 13 -> [op |-> "r.print", s |-> s]
            [] OTHER -> [op |-> "r.cmp", s |-> s, t |-> s]
SimNext == Len(hist) < HistLen /\ \E s \in {RandomElement(Slots)}, t \in {RandomElement(Slots)}, k \in {RandomElement(1..14)},
              d \in {RandomElement(0..(MaxDims - 1))}, p \in {RandomElement(Pairs)}, n \in {RandomElement(0..MaxDims)} :
           \E e \in {TLCEval(ROp(s, t, k, d, p, n))} :
           IF RangeLegal(st, e) /\ Small(RangeApply(st, e))
           THEN st' = RangeApply(st, e) /\ hist' = Append(hist, e) /\ UNCHANGED bad
           ELSE UNCHANGED <<st, hist>> /\ bad' = ~bad
Emit == Len(hist) = HistLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
