----------------------------- MODULE MC_Indexer -----------------------------
EXTENDS QkIndexer, Json, Randomization
CONSTANTS MaxDims, NegB, MaxB, Slots, HistLen
VARIABLES st, vis, hist, bad
Pairs == {p \in ((-NegB)..MaxB) \X ((-NegB)..MaxB) : p[1] <= p[2]}
Rngs == UNION {[1..k -> Pairs] : k \in 1..MaxDims}
\* ---- exhaustive: one iterator walked from start to end, every pair of ranges
Init == /\ st \in {0 :> MkIter(sub, sup) : sub \in Rngs, sup \in Rngs}
        /\ vis = <<>> /\ hist = <<>> /\ bad = FALSE
Next == /\ st[0].ex
        /\ vis' = Append(vis, st[0].x)
        /\ st' = IterApply(st, [op |-> "i.next", s |-> 0])
        /\ UNCHANGED <<hist, bad>>
Inv == LET it == st[0] IN
  /\ it.ex => Includes(it.sup, it.sub) /\ Contains(it.sub, it.x) /\ it.x = Unrank(it.sub, Len(vis))
  /\ it.ex => \A i \in 1..Len(vis) : LexLess(vis[i], it.x, 1) /\ Address(it.sup, vis[i]) < Address(it.sup, it.x)
  /\ ~it.ex /\ vis # <<>> => {vis[i] : i \in 1..Len(vis)} = Points(it.sub) /\ Len(vis) = Volume(it.sub)
  /\ ~it.ex /\ vis = <<>> => Empty(it.sub) \/ ~Includes(it.sup, it.sub)
  /\ Len(vis) <= Volume(it.sub)                                    \* terminates
  /\ ~it.ex /\ vis # <<>> => IterView(MkIter(it.sub, it.sup)).fin = Address(it.sup, vis[Len(vis)]) + 1
\* ---- random histories over several iterators
RPair == RandomElement(Pairs)
RSub(p) == LET a == RandomElement(p[1]..p[2]) IN <<a, RandomElement(a..p[2])>>
ROp(s, t, k, d, n, sup, same) ==
  CASE k <= 3 -> [op |-> "i.new", s |-> s, sup |-> sup, sub |-> [i \in 1..n |-> same[i]]]
    [] k = 4  -> [op |-> "i.new", s |-> s, sup |-> sup, sub |-> [i \in 1..n |-> RPair]]
    [] k = 5  -> [op |-> "i.def", s |-> s]
    [] k = 6  -> [op |-> "i.copy", s |-> s, t |-> t]
    [] k = 7  -> [op |-> "i.assign", s |-> s, t |-> t]
    [] k \in 8..14 -> [op |-> "i.next", s |-> s]
    [] k \in 15..18 -> [op |-> "i.pp", s |-> s]
    [] k = 19 -> [op |-> "i.inc", s |-> s, d |-> d]
    [] k = 20 -> [op |-> "i.dec", s |-> s, d |-> d]
    [] k = 21 -> [op |-> "i.get", s |-> s, d |-> d]
    [] OTHER  -> [op |-> "i.get2", s |-> s, d |-> d]
SimInit == st = <<>> /\ vis = <<>> /\ hist = <<>> /\ bad = FALSE
SimNext == /\ Len(hist) < HistLen
           /\ \E s \in {RandomElement(Slots)}, t \in {RandomElement(Slots)}, k \in {RandomElement(1..22)},
                 d \in {RandomElement((-1)..(MaxDims + 1))}, n \in {RandomElement(1..MaxDims)} :
              \E sup \in {TLCEval([i \in 1..n |-> RPair])} :
              \E same \in {TLCEval([i \in 1..n |-> LET a == RandomElement(sup[i][1]..sup[i][2]) IN <<sup[i][1] + ((a - sup[i][1]) \div 2), sup[i][2] - ((sup[i][2] - a) \div 3)>>])} :
              \E e \in {TLCEval(ROp(s, t, k, d, n, sup, same))} :
                 IF IterLegal(st, e)
                 THEN st' = IterApply(st, e) /\ hist' = Append(hist, e) /\ UNCHANGED <<vis, bad>>
                 ELSE UNCHANGED <<st, vis, hist>> /\ bad' = ~bad
Emit == Len(hist) = HistLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
