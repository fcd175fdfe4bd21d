-------------------------------- MODULE MC_Rk --------------------------------
(* C11: Runge-Kutta stages on one stored value, in integers scaled by 12.    *)
(* Stages may be called in any order, with any right-hand side in between.   *)
EXTENDS QkSystem
CONSTANTS U, Rs, Stages
VARIABLES u0, r, u, hist        \* u[k]: output of stage k;  hist: calls since u0 was set
Stage(k) == CASE k = 0 -> u0 + r
              [] k = 1 -> (3 * u0 + u[0] + r) \div 4
              [] OTHER -> (u0 + 2 * (u[1] + r)) \div 3
Exact(k) == CASE k = 0 -> TRUE [] k = 1 -> (3 * u0 + u[0] + r) % 4 = 0 [] OTHER -> (u0 + 2 * (u[1] + r)) % 3 = 0
Init == u0 \in {12 * x : x \in U} /\ r \in {12 * x : x \in Rs} /\ u = [k \in 0..2 |-> 0] /\ hist = <<>>
Call(k) == Len(hist) < 4 /\ Exact(k) /\ u' = [u EXCEPT ![k] = Stage(k)] /\ hist' = Append(hist, <<k, r>>) /\ UNCHANGED <<u0, r>>
SetR == Len(hist) < 4 /\ \E x \in Rs : r' = 12 * x /\ UNCHANGED <<u0, u, hist>>
Next == SetR \/ \E k \in Stages : Call(k)
\* a complete step with one right-hand side is consistent: u3 = u0 + dt r; with none it reproduces u0
FullStep == (Len(hist) >= 3 /\ \A k \in 1..3 : hist[k][1] = k - 1 /\ hist[k][2] = hist[1][2] /\ Len(hist) = 3) =>
              u[0] = u0 + hist[1][2] /\ 2 * u[1] = 2 * u0 + hist[1][2] /\ u[2] = u0 + hist[1][2]
\* the predicate that judges executions accepts exactly the stage's value
Judge == \A k \in Stages : Exact(k) =>
   LET ok(x) == RkOk(k, R1, <<RInt(u0)>>, <<RInt(r)>>, <<RInt(IF k = 0 THEN u0 ELSE u[k - 1])>>, <<RInt(x)>>)
   IN ok(Stage(k)) /\ \A x \in (Stage(k) - 3)..(Stage(k) + 3) : x # Stage(k) => ~ok(x)
OnlyOwn == [][Cardinality({k \in 0..2 : u'[k] # u[k]}) <= 1]_<<u0, r, u, hist>>
=============================================================================
