----------------------------- MODULE T_Indexer ------------------------------
EXTENDS QkIndexer, QkTrace
VARIABLES l, st
Shows(f, obs) ==
  /\ {obs[i].s : i \in 1..Len(obs)} = DOMAIN f
  /\ \A i \in 1..Len(obs) : obs[i].i = IterView(f[obs[i].s])
WalkOk(e, o) ==
  LET n == WalkCount(e.sub, e.sup) IN
  /\ o.ended
  /\ Len(o.pts) = n /\ Len(o.lin) = n
  /\ \A k \in 1..n : o.pts[k] = WalkPoint(e.sub, k - 1) /\ o.lin[k] = Address(e.sup, o.pts[k])
  /\ n > 0 => o.fin = o.lin[n] + 1 /\ o.finsame
SparseOk(e, o) ==
  LET n == WalkCount(e.sub, e.sup) IN
  /\ o.ended /\ o.n = n
  /\ \A k \in 1..Len(e.at) : e.at[k] < n => /\ k <= Len(o.pts)
                                            /\ o.pts[k] = WalkPoint(e.sub, e.at[k])
                                            /\ o.lin[k] = Address(e.sup, o.pts[k])
  /\ n > 0 => o.mono /\ o.last = Address(e.sup, LastOf(e.sub)) /\ o.fin = o.last + 1
Conforms(ev) ==
  LET e == ev.e new == IterApply(st, e) IN
  CASE e.op = "reset"    -> TRUE
    [] e.op = "i.walk"   -> ev.st = "ok" /\ WalkOk(e, ev.obs)
    [] e.op = "i.sparse" -> ev.st = "ok" /\ SparseOk(e, ev.obs)
    [] IterRejects(st, e) -> ev.st = "qk" /\ ev.msg # "" /\ Shows(st, ev.obs)
    [] e.op \in {"i.get", "i.get2"} -> ev.st = "ok" /\ ev.obs.val = st[e.s].x[e.d + 1] /\ Shows(st, ev.obs.all)
    [] OTHER -> ev.st = "ok" /\ Shows(new, ev.obs)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ st' = IterApply(st, Trace[l].e)
=============================================================================
