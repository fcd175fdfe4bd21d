----------------------------- MODULE T_RangeSet -----------------------------
EXTENDS QkRangeSet, QkTrace
VARIABLES l
Conforms(ev) == ev.e.op = "reset" \/ (ev.st = "ok" /\ IsDecomposition(ev.e.b, ev.e.n, ev.obs.shape, ev.obs.sub))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
=============================================================================
