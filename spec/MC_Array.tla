------------------------------ MODULE MC_Array ------------------------------
EXTENDS QkArray, Json, Randomization
CONSTANTS NSlots, Vals, MaxDims, MaxL, HistLen
VARIABLES st, hist, bad
\* ---- exhaustive: two small arrays of equal volume but different shape
Shape(i) == IF i = 0 THEN <<<<0, 2>>, <<-1, 1>>>> ELSE <<<<1, 2>>, <<0, 4>>>>
SubsOf(b) == {r \in [1..Len(b) -> {p \in ((-1)..5) \X ((-1)..5) : p[1] < p[2]}] : Includes(b, r)}
Init == /\ st \in {(0 :> [k |-> "d", b |-> Shape(0), v |-> [i \in 1..4 |-> 0]]) @@ (1 :> [k |-> "d", b |-> Shape(1), v |-> [i \in 1..4 |-> 0]])}
        /\ hist = <<>> /\ bad = FALSE
Ops == {[op |-> "a.fillr", s |-> s, r |-> r, v |-> v] : s \in {0, 1}, r \in SubsOf(Shape(0)) \cup SubsOf(Shape(1)), v \in Vals}
  \cup {[op |-> "a.pullr", s |-> s, t |-> t, from |-> f, to |-> g] : s \in {0, 1}, t \in {0, 1}, f \in SubsOf(Shape(0)) \cup SubsOf(Shape(1)), g \in SubsOf(Shape(0)) \cup SubsOf(Shape(1))}
  \cup {[op |-> o, s |-> s, t |-> 1 - s] : o \in {"a.pull", "a.swap"}, s \in {0, 1}}
Next == \E e \in Ops : ArrLegal(st, e) /\ ~ArrRejects(st, e) /\ st' = ArrApply(st, e) /\ UNCHANGED <<hist, bad>>
RowMajor(a, r) == [k \in 1..Volume(r) |-> At(a, Unrank(r, k - 1))]
Sound ==
  \A e \in Ops : ArrLegal(st, e) =>
    LET n == ArrApply(st, e) IN
    IF ArrRejects(st, e) THEN n = st ELSE
    /\ e.op = "a.pullr" => /\ RowMajor(n[e.s], e.to) = RowMajor(st[e.t], e.from)
                           /\ \A x \in Points(st[e.s].b) \ Points(e.to) : At(n[e.s], x) = At(st[e.s], x)
                           /\ \A u \in DOMAIN st \ {e.s} : n[u] = st[u]
    /\ e.op = "a.fillr" => \A x \in Points(st[e.s].b) : At(n[e.s], x) = (IF x \in Points(e.r) THEN e.v ELSE At(st[e.s], x))
    /\ e.op = "a.swap" => ArrApply(n, e) = st
\* ---- random histories
Lens == <<0, 1, 2, 2, 3, 3, 4, 4, 3, 5, 2, 4, 1>>
RRange(n) == [i \in 1..n |-> LET a == RandomElement((-2)..2) IN a]
SubOf(b, lo, hi) == [i \in 1..Len(b) |->
   LET L == RLen(b, i) o == IF L > 0 THEN lo[i] % L ELSE 0 n == IF L = 0 \/ hi[i] = 0 THEN 0 ELSE 1 + ((hi[i] - 1) % (L - o))
   IN <<Lo(b, i) + o, Lo(b, i) + o + n>>]
\* place a window of the same lengths as w inside b (if it fits)
Place(b, w, off) == [i \in 1..Len(b) |-> LET room == RLen(b, i) - RLen(w, i)
                                             o == IF room > 0 THEN off[i] % (room + 1) ELSE 0
                                         IN <<Lo(b, i) + o, Lo(b, i) + o + RLen(w, i)>>]
Kinds == <<"i", "c", "d", "c", "h", "c">>
Slots == 0..(NSlots - 1)
ROp(s, t, k, n, b, lo, hi, off, v) ==
  LET bs == IF s \in DOMAIN st THEN st[s].b ELSE <<>>
      bt == IF t \in DOMAIN st THEN st[t].b ELSE <<>>
      f  == IF Len(bt) > 0 THEN SubOf(bt, lo, hi) ELSE <<>>
      g  == IF Len(bs) > 0 /\ Len(bs) = Len(f) THEN Place(bs, f, off) ELSE (IF Len(bs) > 0 THEN SubOf(bs, off, hi) ELSE <<>>)
      g2 == IF Len(bs) > 0 THEN SubOf(bs, off, hi) ELSE <<>>
      bad1 == IF Len(bs) > 0 THEN [SubOf(bs, lo, hi) EXCEPT ![1 + (v % Len(bs))] = <<Lo(bs, 1 + (v % Len(bs))) - (v % 2), Hi(bs, 1 + (v % Len(bs))) + 1>>] ELSE <<>>
      at == [i \in 1..Len(bs) |-> Lo(bs, i) + (IF RLen(bs, i) > 0 THEN off[i] % RLen(bs, i) ELSE 0)]
  IN
  CASE k \in {1, 2, 3} -> [op |-> "a.new", s |-> s, k |-> Kinds[1 + (v % 6)], b |-> b, m |-> IF n > 1 THEN n - 1 ELSE n]
    [] k = 4  -> [op |-> "a.new", s |-> s, k |-> Kinds[1 + (v % 6)], b |-> IF v % 5 = 0 THEN <<>> ELSE bt, m |-> 1]
    [] k \in {5, 6} -> [op |-> "a.copy", s |-> s, t |-> t]
    [] k \in {7, 8} -> [op |-> "a.assign", s |-> s, t |-> t]
    [] k = 9  -> [op |-> "a.resize", s |-> s, b |-> b, m |-> 1]
    [] k = 10 -> [op |-> "a.resize", s |-> s, b |-> bs, m |-> IF Len(bs) > 0 THEN 1 ELSE 0]
    [] k = 11 -> [op |-> "a.fill", s |-> s, v |-> v]
    [] k \in {12, 13} -> [op |-> "a.fillr", s |-> s, r |-> g2, v |-> v]
    [] k = 14 -> [op |-> "a.fillr", s |-> s, r |-> bad1, v |-> v]
    [] k \in {15, 16, 17} -> [op |-> "a.pullr", s |-> s, t |-> t, from |-> f, to |-> g]
    [] k = 18 -> [op |-> "a.pullr", s |-> s, t |-> t, from |-> f, to |-> g2]
    [] k = 19 -> [op |-> "a.pullr", s |-> s, t |-> t, from |-> bt, to |-> bs]
    [] k = 20 -> [op |-> "a.pullr", s |-> s, t |-> t, from |-> f, to |-> [i \in 1..Len(g) |-> IF i = 1 + (v % Len(g)) THEN <<g[i][1] + 7, g[i][2] + 7>> ELSE g[i]]]
    [] k \in {21, 22} -> [op |-> "a.pull", s |-> s, t |-> t]
    [] k \in {23, 24} -> [op |-> "a.swap", s |-> s, t |-> t]
    [] k \in {25, 26} -> [op |-> "a.copyto", s |-> s, t |-> t, from |-> f, to |-> g]
    [] k = 27 -> [op |-> "a.copyto", s |-> s, t |-> t, from |-> [i \in 1..Len(f) |-> IF i = 1 + (v % Len(f)) THEN <<f[i][1] - 7, f[i][2] - 7>> ELSE f[i]], to |-> g]
    [] k = 28 -> [op |-> "a.fullcopy", s |-> s, t |-> t]
    [] k = 29 -> [op |-> "a.mul", s |-> s, r |-> g2, v |-> (v % 5) - 2]
    [] OTHER -> [op |-> "a.wr", s |-> s, x |-> at, how |-> v % 4, v |-> v]
SimInit == st = <<>> /\ hist = <<>> /\ bad = FALSE
\* marks: a.new is followed by writing distinct values (a.mark expands to writes in the generator)
Distinct(f, s, v) == [f EXCEPT ![s] = [f[s] EXCEPT !.v = [i \in 1..Len(f[s].v) |-> v + i]]]
SimNext ==
  /\ Len(hist) < HistLen
  /\ \E s \in {RandomElement(Slots)}, t \in {RandomElement(Slots)}, k \in {RandomElement(1..34)}, n \in {RandomElement(1..MaxDims)},
        v \in {RandomElement(1..999)} :
     \E b \in {TLCEval([i \in 1..n |-> LET a == RandomElement((-2)..2) IN <<a, a>>])}, len \in {TLCEval([i \in 1..n |-> Lens[RandomElement(1..13)]])},
        lo \in {TLCEval([i \in 1..6 |-> RandomElement(0..6)])}, hi \in {TLCEval([i \in 1..6 |-> RandomElement(0..14)])}, off \in {TLCEval([i \in 1..6 |-> RandomElement(0..6)])} :
     \E e \in {TLCEval(ROp(s, t, k, n, [i \in 1..n |-> <<b[i][1], b[i][1] + len[i]>>], lo, hi, off, v))} :
        IF ArrLegal(st, e) /\ (e.op = "a.resize" => Len(e.b) > 0)
        THEN LET n1 == ArrApply(st, e)
                 n2 == IF e.op \in {"a.new", "a.resize"} THEN Distinct(n1, e.s, v) ELSE n1
             IN /\ st' = TLCEval(n2)
                /\ hist' = (IF e.op \in {"a.new", "a.resize"} THEN hist \o <<e, [op |-> "a.mark", s |-> e.s, v |-> v]>> ELSE Append(hist, e))
                /\ UNCHANGED bad
        ELSE UNCHANGED <<st, hist>> /\ bad' = ~bad
Emit == Len(hist) >= HistLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
