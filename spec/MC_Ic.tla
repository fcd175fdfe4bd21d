-------------------------------- MODULE MC_Ic --------------------------------
(* C18: consequences of the initial conditions as specified: pressures as    *)
(* configured, equal number densities, E = c B x k, at every small position. *)
EXTENDS QkSystem
CONSTANT Coords
VARIABLE x
H(n) == RQ(n, 4)
X == [d \in 1..3 |-> H(x[d] - 3)]
N(a, b) == RNear(a, b, RAbs(a) \oplus R1, RDec("1e-12"))
gam == RQ(5, 3)
bw == [gamma |-> gam, me |-> RQ(1, 25), mi |-> R1, nl |-> R1, nr |-> RQ(1, 8), Pl |-> R1, Pr |-> RQ(1, 10), Bx |-> RQ(3, 4), By |-> R1]
gem == [gamma |-> gam, lambda |-> RHalf, Lx |-> RInt(13), n0 |-> R1, n1 |-> RQ(1, 5), qe |-> RInt(0) \ominus R1, me |-> RQ(1, 25), Te |-> RQ(1, 12),
        qi |-> R1, mi |-> R1, Ti |-> RQ(5, 12), B0 |-> R1]
Val(kind, p, pos, n) == [c \in 1..n |-> IcVal(kind, p, pos, X, c - 1)]
Init == x \in [1..3 -> Coords]
Next == FALSE /\ UNCHANGED x
SpeciesAgree == \A k \in {"bw", "gem"} :
   LET p == IF k = "bw" THEN bw ELSE gem kd == IF k = "bw" THEN "brio_wu_shock_tube" ELSE "gem_challenge"
       e == Val(kd, p, 1, 5) i == Val(kd, p, 2, 5) IN
   /\ N(e[1] \oslash p.me, i[1] \oslash p.mi)
   /\ Physical(e, gam) /\ Physical(i, gam)
   /\ k = "gem" => N(Pressure(e, gam) \oslash p.Te, Pressure(i, gam) \oslash p.Ti)
   /\ k = "bw" => N(Pressure(e, gam), Pressure(i, gam)) /\ N(Pressure(e, gam), IF RLt(X[1], R0) THEN p.Pl ELSE p.Pr)
Wave == \A d \in 0..2 :
   LET p == [dim |-> d, c |-> R2, k |-> RQ(7, 5), Bx |-> RQ(1, 2), By |-> RQ(2, 3), Bz |-> RQ(5, 4)] f == Val("electromagnetic_wave_1D", p, 1, 6)
       t1 == Cyc(d + 1, 1) t2 == Cyc(d + 1, 2) IN
   \* E = c B x k in the transverse plane, nothing along k
   N(f[d + 1], R0) /\ N(f[t1], p.c \otimes f[3 + t2]) /\ N(f[t2], RNeg(p.c \otimes f[3 + t1]))
Tubes == LET p == [rho |-> RQ(1, 8), P |-> RQ(1, 10), gamma |-> gam, r |-> RHalf]
             s == Val("shock_tube", p, 1, 5) r == Val("radial_shock_tube", p, 1, 5) IN
   /\ N(Pressure(s, gam), IF x[1] < 3 THEN R1 ELSE RQ(1, 10)) /\ N(s[1], IF x[1] < 3 THEN R1 ELSE RQ(1, 8))
   /\ N(Pressure(r, gam), IF (x[1] - 3) * (x[1] - 3) + (x[2] - 3) * (x[2] - 3) + (x[3] - 3) * (x[3] - 3) < 4 THEN R1 ELSE RQ(1, 10))
=============================================================================
