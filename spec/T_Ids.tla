-------------------------------- MODULE T_Ids --------------------------------
(* C09: the order of bases and variable ids, and clones.                     *)
EXTENDS QkTrace, FiniteSets
VARIABLES l, ids, clones         \* clones: names of all clones made in the process
Ev == Trace[l]
Comparable(a, b) == a.name # b.name \/ a.comps = b.comps
SameId(a, b) == a.name = b.name /\ a.bn = b.bn /\ a.np = b.np
SameBasis(a, b) == a.bn = b.bn /\ a.np = b.np
Has(e, f) == f \in DOMAIN e
\* m: matrix of "T" / "F" / "X" answers; comp, same: relations between the i-th and j-th object
Ordered(n, lt, eq, comp(_, _), same(_, _)) ==
  /\ \A i, j \in 1..n :
       IF ~comp(i, j) THEN lt[i][j] = "X" /\ eq[i][j] = "X"
       ELSE /\ eq[i][j] = (IF same(i, j) THEN "T" ELSE "F")
            /\ IF same(i, j) THEN lt[i][j] = "F" ELSE {lt[i][j], lt[j][i]} = {"T", "F"}
  /\ \A i, j, k \in 1..n : (comp(i, j) /\ comp(j, k) /\ comp(i, k) /\ lt[i][j] = "T" /\ lt[j][k] = "T") => lt[i][k] = "T"
Conforms(ev) ==
  LET e == ev.e o == ev.obs IN
  CASE e.op \in {"reset", "id"} -> ev.st = "ok"
    [] e.op = "clone" -> /\ ev.st = "ok" /\ o.clone.name # ids[e.of].name /\ o.clone.name \notin clones
                         /\ o.clone.comps = ids[e.of].comps /\ o.clone.bn = ids[e.of].bn /\ o.clone.np = ids[e.of].np
    [] e.op = "orderid" -> LET c(i, j) == Comparable(ids[e.ids[i]], ids[e.ids[j]]) s(i, j) == SameId(ids[e.ids[i]], ids[e.ids[j]])
                           IN ev.st = "ok" /\ Ordered(Len(e.ids), o.lt, o.eq, c, s)
    [] e.op = "orderbs" -> LET c(i, j) == TRUE s(i, j) == SameBasis(e.bs[i], e.bs[j])
                           IN /\ ev.st = "ok" /\ Ordered(Len(e.bs), o.lt, o.eq, c, s)
                              /\ \A i, j \in 1..Len(e.bs) : o.ne[i][j] = (IF s(i, j) THEN "F" ELSE "T")
Init == l = 1 /\ ids = <<>> /\ clones = {}
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Ev))
        /\ l' = l + 1
        /\ clones' = IF Ev.e.op = "clone" THEN clones \cup {Ev.obs.clone.name} ELSE clones
        /\ ids' = CASE Ev.e.op = "reset" -> <<>>
                    [] Ev.e.op = "id" -> (Ev.e.i :> [name |-> Ev.e.name, comps |-> Ev.e.comps, bn |-> Ev.e.bn, np |-> Ev.e.np]) @@ ids
                    [] Ev.e.op = "clone" -> (Ev.e.i :> Ev.obs.clone) @@ ids
                    [] OTHER -> ids
=============================================================================
