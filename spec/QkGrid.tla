------------------------------- MODULE QkGrid --------------------------------
(* C19: grids.  A dimension is described by what the grid reports:           *)
(* [s: start, w: width, dx: spacing(s), xc: centres].                        *)
EXTENDS QkBase, QkReal
Tol == RDec("1e-10")
Eq(a, b, sc) == RNear(a, b, sc, Tol)
Scale(s, w) == (RAbs(s) \oplus RAbs(w))
UniformCentre(s, w, n, i) == s \oplus ((RInt(i) \oplus RHalf) \otimes (w \oslash RInt(n)))
\* rectilinear grid on the cells b (indexed from zero)
RectDim(b, s, w, d, o) ==
  LET n == RLen(b, d) IN
  /\ REq(o.s, s) /\ REq(o.w, w)
  /\ Eq(o.dx, w \oslash RInt(n), RAbs(w))
  /\ Len(o.xc) = n
  /\ \A i \in 1..n : Eq(o.xc[i], UniformCentre(s, w, n, i - 1), Scale(s, w))
RectOk(b, start, width, o) ==
  /\ Len(o.d) = Len(b) /\ \A d \in Dims(b) : RectDim(b, start[d], width[d], d, o.d[d])
  /\ \A k \in 1..Len(o.cells) : \A d \in Dims(b) :
       Eq(o.cells[k].x[d], UniformCentre(start[d], width[d], RLen(b, d), o.cells[k].k[d]), Scale(start[d], width[d]) \otimes RInt(3))
\* structured grid: spacings and centres tile the domain
TileDim(n, s, w, o) ==
  /\ REq(o.s, s) /\ REq(o.w, w)
  /\ Len(o.dx) = n /\ Len(o.xc) = n
  /\ \A i \in 1..n : RLt(R0, o.dx[i])
  /\ Eq(RSum(o.dx), w, w)
  /\ Eq(o.xc[1], s \oplus (RHalf \otimes o.dx[1]), Scale(s, w))
  /\ \A i \in 2..n : RLt(o.xc[i - 1], o.xc[i]) /\ Eq(o.xc[i] \ominus o.xc[i - 1], RHalf \otimes (o.dx[i - 1] \oplus o.dx[i]), Scale(s, w))
Mirror(o, w) == \A i \in 1..Len(o.dx) : Eq(o.dx[i], o.dx[Len(o.dx) + 1 - i], w)
\* biasing with exponent p: n cells over a unit length have their edges at (i/n)^(1/p)
Edge(i, n, p) == RPow(RQ(i, n), R1 \oslash p)
Cell(i, n, p) == Edge(i, n, p) \ominus Edge(i - 1, n, p)
BiasTol == RDec("1e-9")
BiasedOk(o, w, how, p) ==
  LET n == Len(o.dx) h == n \div 2 IN
  \A i \in 1..n : RNear(o.dx[i], IF how = "sym" THEN (RHalf \otimes w) \otimes Cell(IF i <= h THEN i ELSE n + 1 - i, h, p)
                                                ELSE w \otimes Cell(n + 1 - i, n, p), w, BiasTol)
=============================================================================
