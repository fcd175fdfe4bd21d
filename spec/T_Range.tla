------------------------------ MODULE T_Range -------------------------------
EXTENDS QkRange, QkTrace
VARIABLES l, st
\* obs lists every live object: the views must be those of the model state, no more, no less
Shows(f, obs) ==
  /\ {obs[i].s : i \in 1..Len(obs)} = DOMAIN f
  /\ \A i \in 1..Len(obs) : obs[i].r = RangeView(f[obs[i].s])
\* the numbers a printed range shows: all lower bounds, then all upper bounds
Printed(r) == [i \in 1..(2 * Len(r)) |-> IF i <= Len(r) THEN Lo(r, i) ELSE Hi(r, i - Len(r))]
Conforms(ev) ==
  LET e == ev.e new == RangeApply(st, e) IN
  /\ ev.st = "ok"
  /\ CASE e.op = "reset" -> TRUE
       [] e.op = "r.cmp" -> /\ ev.obs.eq = (st[e.s] = st[e.t])
                            /\ ev.obs.ne = (st[e.s] # st[e.t])
                            /\ ev.obs.inc = Includes(st[e.s], st[e.t])
                            /\ Shows(st, ev.obs.all)
       [] e.op = "r.print" -> /\ ev.obs.nums = Printed(st[e.s])
                              /\ ev.obs.cont
                              /\ Shows(st, ev.obs.all)
       [] OTHER -> Shows(new, ev.obs)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ st' = RangeApply(st, Trace[l].e)
=============================================================================
