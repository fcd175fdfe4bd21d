------------------------------- MODULE QkFlux -------------------------------
(* The finite-volume formulas of the flux solvers (C12, C13, C15) over      *)
(* reals.  A face lies between two cells; its states are extrapolated from  *)
(* the two cells on either side.                                            *)
EXTENDS QkReal, Integers, Sequences, TLC

\* Smooth van Albada slope of two consecutive differences: o to the outer neighbour, i across the
\* face; o*i*(o+i)/(o^2+i^2), the outer difference being regularised by 1e-12
Reg == RDec("1e-12")
Slope(o, i) == IF REq(o, R0) \/ REq(i, R0) THEN R0
               ELSE LET r == i \oslash (o \oplus Reg) IN o \otimes (((r \otimes r) \oplus r) \oslash ((r \otimes r) \oplus R1))
LeftState(qn, qc, qp)   == qc \oplus (RHalf \otimes Slope(qc \ominus qn, qp \ominus qc))
RightState(qc, qp, qpp) == qp \ominus (RHalf \otimes Slope(qpp \ominus qp, qp \ominus qc))

\* States on both sides of a face: v contents (1-based), a: offset (0-based) of component 0 of the
\* cell on the lower side, s: stride of the direction, n: number of components
FaceL(v, a, s, n) == [j \in 1..n |-> LeftState(v[a - s + j], v[a + j], v[a + s + j])]
FaceR(v, a, s, n) == [j \in 1..n |-> RightState(v[a + j], v[a + s + j], v[a + s + s + j])]

\* ---------------------------------------------------------------- Maxwell
\* components 1..3 = E, 4..6 = B; the curl pairs the two transverse directions of d cyclically
Cyc(d, k) == ((d - 1 + k) % 3) + 1
Mean(x, y) == RHalf \otimes (x \oplus y)
Jump(c, x, y) == (RHalf \otimes RAbs(c)) \otimes (y \ominus x)
MaxwellFlux(ql, qr, d, c) ==
  LET t1 == Cyc(d, 1) t2 == Cyc(d, 2) c2 == c \otimes c
      m(j) == Mean(ql[j], qr[j]) jp(j) == Jump(c, ql[j], qr[j])
  IN [j \in 1..6 |->
        CASE j = t1     -> (c2 \otimes m(3 + t2)) \ominus jp(j)
          [] j = t2     -> RNeg(c2 \otimes m(3 + t1)) \ominus jp(j)
          [] j = 3 + t1 -> RNeg(m(t2)) \ominus jp(j)
          [] j = 3 + t2 -> m(t1) \ominus jp(j)
          [] OTHER      -> R0]

\* ---------------------------------------------------------------- Euler
\* components: density, momentum x y z, total energy
Kin(q) == (RHalf \otimes (((q[2] \otimes q[2]) \oplus (q[3] \otimes q[3])) \oplus (q[4] \otimes q[4]))) \oslash q[1]
Pressure(q, g) == (g \ominus R1) \otimes (q[5] \ominus Kin(q))
Physical(q, g) == RLt(R0, q[1]) /\ RLt(R0, Pressure(q, g))
Sound(q, g) == RSqrt((g \otimes Pressure(q, g)) \oslash q[1])
GasFlux(q, d, g) ==
  LET u == q[d + 1] \oslash q[1] p == Pressure(q, g)
      f(j) == (q[j] \otimes u) \oplus (IF j = d + 1 THEN p ELSE R0)
  IN <<q[d + 1], f(2), f(3), f(4), (q[5] \oplus p) \otimes u>>
HLL(ql, qr, d, g) ==
  LET s1 == (ql[d + 1] \oslash ql[1]) \ominus Sound(ql, g)
      s2 == (qr[d + 1] \oslash qr[1]) \oplus Sound(qr, g)
      sl == IF RLt(s2, s1) THEN s2 ELSE s1     \* in ascending order (supersonic streams may collide)
      sr == IF RLt(s2, s1) THEN s1 ELSE s2
      fl == TLCEval(GasFlux(ql, d, g)) fr == TLCEval(GasFlux(qr, d, g))
  IN [j \in 1..5 |->
        IF RLt(R0, sl) THEN fl[j]
        ELSE IF RLt(sr, R0) THEN fr[j]
        ELSE IF REq(sl, sr) THEN RHalf \otimes (fl[j] \oplus fr[j])
        ELSE (((sr \otimes fl[j]) \ominus (sl \otimes fr[j])) \oplus ((sl \otimes sr) \otimes (qr[j] \ominus ql[j]))) \oslash (sr \ominus sl)]
\* both signal speeds vanish (to rounding): the weights of the two fluxes are not determined
Undetermined(ql, qr, d, g) ==
  LET ul == ql[d + 1] \oslash ql[1] ur == qr[d + 1] \oslash qr[1]
      tol == RDec("1e-7") \otimes (((RAbs(ul) \oplus Sound(ql, g)) \oplus RAbs(ur)) \oplus Sound(qr, g))
  IN RLe(RAbs(ul \ominus Sound(ql, g)), tol) /\ RLe(RAbs(ur \oplus Sound(qr, g)), tol)
\* magnitude of the terms of the flux of each component, for tolerances
GasScale(ql, qr, d, g) ==
  LET s == (RAbs(ql[d + 1] \oslash ql[1]) \oplus Sound(ql, g)) \oplus (RAbs(qr[d + 1] \oslash qr[1]) \oplus Sound(qr, g))
      rho == ql[1] \oplus qr[1]
      mom == RSumAbs(<<ql[2], ql[3], ql[4], qr[2], qr[3], qr[4]>>)
  IN <<s \otimes rho, s \otimes (mom \oplus (s \otimes rho)), s \otimes (mom \oplus (s \otimes rho)), s \otimes (mom \oplus (s \otimes rho)),
       s \otimes (RAbs(ql[5]) \oplus RAbs(qr[5]))>>

\* ---------------------------------------------------------------- Advection
Phi(vn, vc, vp) == IF REq(vp, vc) THEN R1
                   ELSE LET r == (vc \ominus vn) \oslash (vp \ominus vc)
                        IN (r \otimes (r \oplus R1)) \oslash ((r \otimes r) \oplus R1)
UpFlux(co, vn, vc, vp) == co \otimes (vc \oplus ((RQ(1, 4) \otimes Phi(vn, vc, vp)) \otimes (vp \ominus vn)))
\* net gain of element k (1-based) along a direction of stride s; co = |velocity| dt / dx
AdvGain(v, k, s, vel, co) ==
  IF REq(vel, R0) THEN R0
  ELSE LET t == IF RLt(R0, vel) THEN s ELSE -s
       IN UpFlux(co, v[k - 2 * t], v[k - t], v[k]) \ominus UpFlux(co, v[k - t], v[k], v[k + t])
=============================================================================
