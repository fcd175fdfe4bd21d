------------------------------- MODULE MC_Flux -------------------------------
(* C12, C13, C15, C17: identities of the flux formulas of QkFlux, on every   *)
(* combination of small states: consistency, axis covariance, mirror         *)
(* symmetry, and the slope.                                                  *)
EXTENDS QkFlux, FiniteSets
CONSTANTS Vals, Speeds, What
VARIABLES a, b, c, k
Near(x, y) == RNear(x, y, RInt(50), RDec("1e-12"))
NearS(x, y) == \A j \in 1..Len(x) : Near(x[j], y[j])
Rl(s) == [j \in 1..Len(s) |-> RInt(s[j])]
Tuples(n) == [1..n -> Vals]
Gas(s) == <<RInt(1 + s[1]), RInt(2 * s[2] - 3), RInt(s[3]), RInt(s[4]), RInt(12 + s[1])>>
Em(s) == Rl(s)
Init == CASE What = "em"  -> a \in Tuples(6) /\ b \in {x \in Tuples(6) : \A j \in {1, 4} : x[j] = a[j]} /\ c \in Speeds /\ k = 0
          [] What = "gas" -> a \in Tuples(4) /\ b \in Tuples(4) /\ c \in Speeds /\ k = 0
          [] OTHER        -> a \in Tuples(3) /\ b \in Tuples(1) /\ c \in Speeds /\ k = 0
Next == FALSE /\ UNCHANGED <<a, b, c, k>>
\* cyclic relabelling of the axes (x -> y -> z -> x)
CycEm(q) == <<q[3], q[1], q[2], q[6], q[4], q[5]>>
CycGas(q) == <<q[1], q[4], q[2], q[3], q[5]>>
EmLaw == What = "em" =>
  LET ql == Em(a) qr == Em(b) cc == RInt(c) IN
  /\ \A d \in 1..3 : NearS(MaxwellFlux(CycEm(ql), CycEm(qr), Cyc(d, 1), cc), CycEm(MaxwellFlux(ql, qr, d, cc)))
  /\ \A d \in 1..3 : LET f == MaxwellFlux(ql, qr, d, cc) IN Near(f[d], R0) /\ Near(f[3 + d], R0)
  \* consistent: equal states give the curl flux, c^2 (B cross) and -(E cross)
  /\ \A d \in 1..3 : LET f == MaxwellFlux(ql, ql, d, cc) IN
       /\ Near(f[Cyc(d, 1)], (cc \otimes cc) \otimes ql[3 + Cyc(d, 2)]) /\ Near(f[3 + Cyc(d, 2)], ql[Cyc(d, 1)])
       /\ Near(f[Cyc(d, 2)], RNeg((cc \otimes cc) \otimes ql[3 + Cyc(d, 1)])) /\ Near(f[3 + Cyc(d, 1)], RNeg(ql[Cyc(d, 2)]))
  \* the sign of c does not matter
  /\ \A d \in 1..3 : NearS(MaxwellFlux(ql, qr, d, RNeg(cc)), MaxwellFlux(ql, qr, d, cc))
Flip(q, d) == [j \in 1..5 |-> IF j = d + 1 THEN RNeg(q[j]) ELSE q[j]]
GasLaw == What = "gas" =>
  LET ql == Gas(a) qr == Gas(b) g == RQ(c, 5) IN
  (Physical(ql, g) /\ Physical(qr, g)) =>
  /\ \A d \in 1..3 : NearS(HLL(CycGas(ql), CycGas(qr), Cyc(d, 1), g), CycGas(HLL(ql, qr, d, g)))
  /\ \A d \in 1..3 : NearS(HLL(ql, ql, d, g), GasFlux(ql, d, g))
  \* mirrored flow: fluxes change sign except normal momentum
  /\ \A d \in 1..3 : LET f == HLL(ql, qr, d, g) m == HLL(Flip(qr, d), Flip(ql, d), d, g) IN
       \A j \in 1..5 : Near(m[j], IF j = d + 1 THEN f[j] ELSE RNeg(f[j]))
SlopeLaw == What = "slope" =>
  LET x == RInt(a[1]) y == RInt(a[2]) z == RInt(a[3]) co == RQ(c, 7) IN
  /\ Near(Slope(x, y), Slope(y, x)) /\ Near(Slope(RNeg(x), RNeg(y)), RNeg(Slope(x, y))) /\ Near(Slope(x, x), x)
  /\ RLe(RAbs(Slope(x, y)), RMul(RDec("1.21"), RMax(RAbs(x), RAbs(y))))
  /\ Near(UpFlux(co, x, x, x), co \otimes x)
  \* a straight line is transported without error of first order: flux at the face midpoint
  /\ LET u == RInt(a[1]) s == RInt(a[2]) IN Near(UpFlux(co, u \ominus s, u, u \oplus s), co \otimes (u \oplus (RHalf \otimes s)))
=============================================================================
