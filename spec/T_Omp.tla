-------------------------------- MODULE T_Omp --------------------------------
(* C21: recorded parallel regions. One event per region: how the threads of  *)
(* the team accessed each storage location.                                  *)
EXTENDS QkTrace, QkOmp
VARIABLE l
Pat(loc) == {[k |-> loc.acc[i].k, r |-> SetOf(loc.acc[i].r), w |-> SetOf(loc.acc[i].w)] : i \in DOMAIN loc.acc}
Bad(ev) == {i \in DOMAIN ev.obs.locs : Conflict(Pat(ev.obs.locs[i]))}
Conforms(ev) == LET b == Bad(ev) IN IF b = {} THEN TRUE ELSE PrintT("WHY race: " \o ToString({ev.obs.locs[i] : i \in b})) /\ FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Explain(l, Conforms(Trace[l])) /\ l' = l + 1
=============================================================================
