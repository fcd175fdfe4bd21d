------------------------------ MODULE QkSystem ------------------------------
(* The system: managers holding variables on a grid, and the solvers that   *)
(* change them.  State:                                                     *)
(*   ids  : id number -> [name, comps, bn, np]                              *)
(*   mg   : manager   -> [mesh, start, width, t, dt]                        *)
(*   vars : <<manager, name, basis, points>> -> contents (storage order)    *)
(*   sol  : solver slot -> [s, p, in, out]                                  *)
(*   aux  : clone names, loose solvers                                      *)
(* Contents are sequences of reals over Storage(mesh, points x components,  *)
(* two ghost layers).                                                       *)
EXTENDS QkBase, QkChunk, QkFlux

NG == 2
Put(f, k, v) == (k :> v) @@ f
Empty0 == [ids |-> <<>>, mg |-> <<>>, vars |-> <<>>, sol |-> <<>>, seen |-> {}, loose |-> {}, ptr |-> <<>>]

Id(st, i)      == st.ids[i]
KeyOf(st, m, i) == <<m, st.ids[i].name, st.ids[i].bn, st.ids[i].np>>
\* an id that reuses a name with other components collides
Collides(st, m, i) == \E k \in DOMAIN st.vars : k[1] = m /\ k[2] = st.ids[i].name /\ st.vars[k].comps # st.ids[i].comps
Exists(st, m, i)  == KeyOf(st, m, i) \in DOMAIN st.vars /\ ~Collides(st, m, i)

DataRange(st, i) == <<<<0, st.ids[i].np>>, <<0, Len(st.ids[i].comps)>>>>
StorageOf(st, m, i) == Storage(st.mg[m].mesh, DataRange(st, i), NG)
Zeros(n) == [k \in 1..n |-> <<0, 0>>]
NewVar(st, m, i) == [comps |-> st.ids[i].comps, v |-> Zeros(Volume(StorageOf(st, m, i)))]
Ensure(st, m, I) ==
  LET ks == {KeyOf(st, m, i) : i \in I} \ DOMAIN st.vars
      rep(k) == CHOOSE i \in I : KeyOf(st, m, i) = k
  IN IF ks = {} THEN st ELSE [st EXCEPT !.vars = TLCEval([k \in ks |-> NewVar(st, m, rep(k))]) @@ st.vars]

\* ---------------------------------------------------------------- geometry of a variable
Geo(st, m, i) ==
  LET S == StorageOf(st, m, i) IN
  [mesh |-> st.mg[m].mesh, n |-> Len(st.mg[m].mesh), S |-> S, vol |-> Volume(S),
   str |-> TLCEval([d \in Dims(S) |-> Stride(S, d)]),
   nc |-> Len(st.ids[i].comps), np |-> st.ids[i].np]
\* coordinates of storage element k (1-based)
Coord(g, k) == [d \in Dims(g.S) |-> Lo(g.S, d) + (((k - 1) \div g.str[d]) % RLen(g.S, d))]
RECURSIVE OffFrom(_, _, _)
OffFrom(g, x, d) == IF d > Len(x) THEN 1 ELSE (x[d] - Lo(g.S, d)) * g.str[d] + OffFrom(g, x, d + 1)
Elem(g, x) == OffFrom(g, x, 1)
OutDims(g, x) == {d \in 1..g.n : x[d] < Lo(g.mesh, d) \/ x[d] >= Hi(g.mesh, d)}
IsInterior(g, x) == \A d \in 1..g.n : Lo(g.mesh, d) <= x[d] /\ x[d] < Hi(g.mesh, d)
\* storage elements of component 0 of the mesh cells (np = 1)
CellElems(g) == {k \in 1..g.vol : (k - 1) % g.nc = 0 /\ IsInterior(g, Coord(g, k))}
Dx(st, m, d) == st.mg[m].width[d] \oslash RInt(RLen(st.mg[m].mesh, d))

\* ---------------------------------------------------------------- boundary conditions (C06, C07)
BcKinds == {"bc_periodic", "bc_copy_out", "bc_no_slip", "bc_free_slip", "bc_conducting_wall"}
\* components (0-based) whose sign is reversed in the ghost cells of dimension d (1-based)
Reversed(kind, d) == CASE kind = "bc_no_slip" -> {1, 2, 3}
                       [] kind = "bc_free_slip" -> {d}
                       [] kind = "bc_conducting_wall" -> {0, 1, 2}
                       [] OTHER -> {}
Source(kind, mesh, x, d) ==
  LET lo == Lo(mesh, d) hi == Hi(mesh, d) L == hi - lo IN
  [x EXCEPT ![d] = IF kind = "bc_periodic" THEN (IF x[d] < lo THEN x[d] + L ELSE x[d] - L)
                   ELSE (IF x[d] < lo THEN 2 * lo - 1 - x[d] ELSE 2 * hi - 1 - x[d])]
BcDims(p) == {p.dims[i] + 1 : i \in 1..Len(p.dims)}
BcOk(g, kind, dims, old, new) ==
  \A k \in 1..g.vol :
    LET x == Coord(g, k) o == OutDims(g, x) IN
    IF Cardinality(o) = 1 /\ o \subseteq dims
    THEN LET d == CHOOSE y \in o : TRUE
             src == old[Elem(g, Source(kind, g.mesh, x, d))]
         IN RSame(new[k], IF x[g.n + 2] \in Reversed(kind, d) THEN RNeg(src) ELSE src)
    ELSE new[k] = old[k]

\* ---------------------------------------------------------------- Runge-Kutta stages (C11)
Tol12 == RDec("1e-12")
Tol9 == RDec("1e-9")
Tol6 == RDec("1e-6")
Sum3(a, b, c) == (RAbs(a) \oplus RAbs(b)) \oplus RAbs(c)
StagesOf(kind) == IF kind = "rk1" THEN 1 ELSE 3
RkOk(tag, dt, u0, r, prev, new) ==
  \A k \in 1..Len(u0) :
    LET dr == dt \otimes r[k] IN
    CASE tag = 0 -> RNear(new[k], u0[k] \oplus dr, RAbs(u0[k]) \oplus RAbs(dr), Tol12)
      [] tag = 1 -> RNear(new[k], ((RQ(3, 4) \otimes u0[k]) \oplus (RQ(1, 4) \otimes prev[k])) \oplus (RQ(1, 4) \otimes dr), Sum3(u0[k], prev[k], dr), Tol12)
      [] OTHER   -> RNear(new[k], (u0[k] \oslash RInt(3)) \oplus (RQ(2, 3) \otimes (prev[k] \oplus dr)), Sum3(u0[k], prev[k], dr), Tol12)

\* ---------------------------------------------------------------- sources (C16)
\* g: geometry of the fluid, gf: of the field; both np = 1.  Matching cells by coordinates.
Partner(g, k, h) == LET x == Coord(g, k) IN Elem(h, [x EXCEPT ![g.n + 2] = 0])
LorentzOk(g, gf, com, q, f, old, new) ==
  \A k \in 1..g.vol :
    LET x == Coord(g, k) c == x[g.n + 2] IN
    IF c = 0 \/ c > 4 \/ ~IsInterior(g, x) THEN new[k] = old[k]
    ELSE LET b == k - c           \* component 0 of this cell
             e == Partner(g, k, gf)
             E(j) == f[e + j - 1] B(j) == f[e + 2 + j] P(j) == q[b + j]
             t1 == Cyc(c, 1) t2 == Cyc(c, 2)
             add == IF c = 4 THEN ((P(1) \otimes E(1)) \oplus (P(2) \otimes E(2))) \oplus (P(3) \otimes E(3))
                    ELSE (q[b] \otimes E(c)) \oplus ((P(t1) \otimes B(t2)) \ominus (P(t2) \otimes B(t1)))
             mag == IF c = 4 THEN Sum3(P(1) \otimes E(1), P(2) \otimes E(2), P(3) \otimes E(3))
                    ELSE Sum3(q[b] \otimes E(c), P(t1) \otimes B(t2), P(t2) \otimes B(t1))
         IN RNear(new[k], old[k] \oplus (com \otimes add), RAbs(old[k]) \oplus (RAbs(com) \otimes mag), Tol12)
\* gs, qs: geometries and contents of the species, ms: multipliers charge/mass
RECURSIVE CurrentSum(_, _, _, _, _, _, _)
CurrentSum(g, k, c, gs, qs, ms, abs) ==
  IF gs = <<>> THEN R0
  ELSE LET t == Head(ms) \otimes Head(qs)[Partner(g, k, Head(gs)) + 1 + c]
       IN (IF abs THEN RAbs(t) ELSE t) \oplus CurrentSum(g, k, c, Tail(gs), Tail(qs), Tail(ms), abs)
CurrentOk(g, eps0, gs, qs, ms, old, new) ==
  \A k \in 1..g.vol :
    LET x == Coord(g, k) c == x[g.n + 2] IN
    IF c > 2 \/ ~IsInterior(g, x) THEN new[k] = old[k]
    ELSE RNear(new[k], old[k] \ominus (CurrentSum(g, k, c, gs, qs, ms, FALSE) \oslash eps0),
               RAbs(old[k]) \oplus RAbs(CurrentSum(g, k, c, gs, qs, ms, TRUE) \oslash eps0), Tol12)

\* ---------------------------------------------------------------- flux solvers (C12, C13)
SumDims(F(_), n) == RSum([d \in 1..n |-> F(d)])
MaxwellOk(st, m, g, c, v, old, new) ==
  \A k \in CellElems(g) :
    LET a == k - 1                                    \* 0-based offset of component 0
        fl == TLCEval([d \in 1..g.n |-> MaxwellFlux(TLCEval(FaceL(v, a - g.str[d], g.str[d], 6)), TLCEval(FaceR(v, a - g.str[d], g.str[d], 6)), d, c)])
        fr == TLCEval([d \in 1..g.n |-> MaxwellFlux(TLCEval(FaceL(v, a, g.str[d], 6)), TLCEval(FaceR(v, a, g.str[d], 6)), d, c)])
        near(o) == TLCEval([d \in 1..g.n |-> RSumAbs([j \in 1..3 |-> ((RAbs(v[a + o + j]) \oplus RAbs(v[a - g.str[d] + o + j])) \oplus RAbs(v[a + g.str[d] + o + j]))])])
        nE == near(0) nB == near(3)
        magE(d) == (((c \otimes c) \otimes nB[d]) \oplus (RAbs(c) \otimes nE[d])) \oslash Dx(st, m, d)
        magB(d) == (nE[d] \oplus (RAbs(c) \otimes nB[d])) \oslash Dx(st, m, d)
        sE == SumDims(magE, g.n) sB == SumDims(magB, g.n)
    IN \A j \in 1..6 :
         LET scale == IF j < 4 THEN sE ELSE sB
             in(d) == (fl[d][j] \ominus fr[d][j]) \oslash Dx(st, m, d)
         IN RNear(new[a + j], old[a + j] \oplus SumDims(in, g.n), RAbs(old[a + j]) \oplus scale, Tol9)
EulerOk(st, m, g, gam, v, old, new) ==
  \A k \in CellElems(g) :
    LET a == k - 1
        ll == TLCEval([d \in 1..g.n |-> TLCEval(FaceL(v, a - g.str[d], g.str[d], 5))]) lr == TLCEval([d \in 1..g.n |-> TLCEval(FaceR(v, a - g.str[d], g.str[d], 5))])
        rl == TLCEval([d \in 1..g.n |-> TLCEval(FaceL(v, a, g.str[d], 5))]) rr == TLCEval([d \in 1..g.n |-> TLCEval(FaceR(v, a, g.str[d], 5))])
    IN (\A d \in 1..g.n : Physical(ll[d], gam) /\ Physical(lr[d], gam) /\ Physical(rl[d], gam) /\ Physical(rr[d], gam)) =>
       IF \E d \in 1..g.n : Undetermined(ll[d], lr[d], d, gam) \/ Undetermined(rl[d], rr[d], d, gam)
       THEN \A j \in 1..5 : REq(new[a + j], new[a + j])       \* a number
       ELSE
       LET fl == TLCEval([d \in 1..g.n |-> HLL(ll[d], lr[d], d, gam)])
           fr == TLCEval([d \in 1..g.n |-> HLL(rl[d], rr[d], d, gam)])
           ml == TLCEval([d \in 1..g.n |-> GasScale(ll[d], lr[d], d, gam)]) mr == TLCEval([d \in 1..g.n |-> GasScale(rl[d], rr[d], d, gam)])
       IN \A j \in 1..5 :
            LET mag(d) == (ml[d][j] \oplus mr[d][j]) \oslash Dx(st, m, d)
                scale == SumDims(mag, g.n)
                in(d) == (fl[d][j] \ominus fr[d][j]) \oslash Dx(st, m, d)
            IN RNear(new[a + j], old[a + j] \oplus SumDims(in, g.n), RAbs(old[a + j]) \oplus scale, Tol9)

\* ---------------------------------------------------------------- advection (C15)
AdvOk(st, m, g, vel, frac, base(_), v, new) ==
  \A k \in 1..g.vol : IsInterior(g, Coord(g, k)) =>
    LET co(d) == RAbs((vel[d] \otimes (frac \otimes st.mg[m].dt)) \oslash Dx(st, m, d))
        gain(d) == AdvGain(v, k, g.str[d], vel[d], co(d))
        mag(d) == co(d) \otimes RSumAbs(<<v[k], v[k - g.str[d]], v[k + g.str[d]], v[k - 2 * g.str[d]], v[k + 2 * g.str[d]]>>)
    IN RNear(new[k], base(k) \oplus SumDims(gain, g.n), RAbs(base(k)) \oplus SumDims(mag, g.n), RDec("1e-10"))

\* ---------------------------------------------------------------- initial conditions (C18)
\* cell centre, missing coordinates zero
Centre(st, m, x) == TLCEval([d \in 1..3 |-> IF d > Len(st.mg[m].mesh) THEN R0
                                    ELSE st.mg[m].start[d] \oplus ((RInt(x[d]) \oplus RHalf) \otimes Dx(st, m, d))])
Sq(a) == a \otimes a
Avg(p, d) == IF d <= Len(p) THEN p[d] ELSE R0
\* Each initial condition: Val(x, c) for component c (0-based) of each of its outputs; "?" where undefined.
Close(a, b, sc) == RNear(a, b, sc, RDec("1e-9"))
IcValPi(pi, kind, p, pos, x, c) ==      \* pos: which output variable (1-based); x: cell centre
  CASE kind = "shock_tube" ->
        LET left == RLt(x[1], R0) IN
        (CASE c = 0 -> IF left THEN R1 ELSE p.rho
           [] c = 4 -> (IF left THEN R1 ELSE p.P) \oslash (p.gamma \ominus R1)
           [] OTHER -> R0)
    [] kind = "radial_shock_tube" ->
        LET w(d) == Sq(x[d] \ominus (IF "center" \in DOMAIN p THEN Avg(p.center, d) ELSE R0))
            in == RLt((w(1) \oplus w(2)) \oplus w(3), Sq(p.r)) IN
        (CASE c = 0 -> IF in THEN R1 ELSE p.rho
           [] c = 4 -> (IF in THEN R1 ELSE p.P) \oslash (p.gamma \ominus R1)
           [] OTHER -> R0)
    [] kind = "gaussian" ->
        LET w(d) == Sq((x[d] \ominus Avg(p.avg, d)) \oslash p.sd)
        IN p.amp \otimes RExp(RNeg((w(1) \oplus w(2)) \oplus w(3)))
    [] kind = "magnetic_pulse" ->
        IF c # 5 THEN R0
        ELSE p.amp \otimes RExp(RNeg((RHalf \otimes ((Sq(x[1]) \oplus Sq(x[2])) \oplus Sq(x[3]))) \oslash p.sd))
    [] kind = "electromagnetic_wave_1D" ->
        LET d == p.dim + 1 s == RSin(p.k \otimes x[d]) B == <<p.Bx, p.By, p.Bz>>
            t1 == Cyc(d, 1) t2 == Cyc(d, 2) IN
        (CASE c + 1 = t1 -> (p.c \otimes B[t2]) \otimes s
           [] c + 1 = t2 -> RNeg((p.c \otimes B[t1]) \otimes s)
           [] c + 1 = d  -> R0
           [] c - 2 = d  -> B[d]
           [] OTHER      -> B[c - 2] \otimes s)
    [] kind = "brio_wu_shock_tube" ->
        LET left == RLt(x[1], R0) n == IF left THEN p.nl ELSE p.nr P == IF left THEN p.Pl ELSE p.Pr IN
        (CASE pos < 3 /\ c = 0 -> (IF pos = 1 THEN p.me ELSE p.mi) \otimes n
           [] pos < 3 /\ c = 4 -> P \oslash (p.gamma \ominus R1)
           [] pos = 3 /\ c = 3 -> p.Bx
           [] pos = 3 /\ c = 4 -> IF left THEN p.By ELSE RNeg(p.By)
           [] OTHER -> R0)
    [] kind = "gem_challenge" ->
        LET kx == pi \oslash p.Lx ky == pi \oslash p.Lx
            xl == x[1] \oslash p.lambda
            sech2 == R1 \oslash Sq(RCosh(xl))
            n == p.n0 \otimes (sech2 \oplus (p.n1 \oslash p.n0))
            prof == sech2 \oslash (sech2 \oplus (p.n1 \oslash p.n0))
            u(T, q) == ((R2 \otimes T) \oslash ((q \otimes p.lambda) \otimes p.B0))
            B1 == RQ(1, 10) \otimes p.B0
            ms == IF pos = 1 THEN p.me ELSE p.mi
            T == IF pos = 1 THEN p.Te ELSE p.Ti
            qq == IF pos = 1 THEN p.qe ELSE p.qi
            pz == ((ms \otimes n) \otimes u(T, qq)) \otimes prof IN
        (CASE pos < 3 /\ c = 0 -> ms \otimes n
           [] pos < 3 /\ c = 3 -> pz
           [] pos < 3 /\ c = 4 -> ((n \otimes T) \oslash (p.gamma \ominus R1)) \oplus ((RHalf \otimes Sq(pz)) \oslash (ms \otimes n))
           [] pos = 3 /\ c = 3 -> ((B1 \otimes ky) \otimes RCos(kx \otimes x[1])) \otimes RSin(ky \otimes x[2])
           [] pos = 3 /\ c = 4 -> (p.B0 \otimes RTanh(xl)) \ominus (((B1 \otimes kx) \otimes RSin(kx \otimes x[1])) \otimes RCos(ky \otimes x[2]))
           [] OTHER -> R0)
IcKinds == {"shock_tube", "radial_shock_tube", "gaussian", "magnetic_pulse", "electromagnetic_wave_1D", "brio_wu_shock_tube", "gem_challenge"}
\* centres that lie on a jump (to rounding) are left open
OnJump(kind, p, x) ==
  CASE kind \in {"shock_tube", "brio_wu_shock_tube"} -> Close(x[1], R0, R1)
    [] kind = "radial_shock_tube" ->
        LET w(d) == Sq(x[d] \ominus (IF "center" \in DOMAIN p THEN Avg(p.center, d) ELSE R0))
        IN Close((w(1) \oplus w(2)) \oplus w(3), Sq(p.r), R1)
    [] OTHER -> FALSE
\* magnitude of the terms a value is composed of
IcScale(kind, p, pos, c, v) ==
  CASE kind = "electromagnetic_wave_1D" -> (RAbs(v) \oplus RAbs(p.Bx)) \oplus ((RAbs(p.By) \oplus RAbs(p.Bz)) \otimes (R1 \oplus RAbs(p.c)))
    [] kind = "gem_challenge" /\ pos = 3 -> RAbs(v) \oplus (RAbs(p.B0) \otimes (R1 \oplus RAbs(R1 \oslash p.Lx)))
    [] OTHER -> RAbs(v)
\* On a jump a cell is in one of the two states: the left one (inside) or the right one (outside), in all of its components;
\* along a plane it is the same one for all cells and all variables of a call (side).
SideAt(kind, p, x, side) ==
  IF kind = "radial_shock_tube"
  THEN LET a(d) == IF "center" \in DOMAIN p THEN Avg(p.center, d) ELSE R0 IN <<IF side THEN a(1) ELSE (a(1) \oplus RAbs(p.r)) \oplus R1, a(2), a(3)>>
  ELSE <<IF side THEN RNeg(R1) ELSE R1, x[2], x[3]>>
\* pi as the code writes it, and to full precision
Pis == {RDec("3.14159265358979323846"), RDec("3.14159263")}
IcVal(kind, p, pos, x, c) == IcValPi(RDec("3.14159265358979323846"), kind, p, pos, x, c)
IcNear(kind, p, pos, c, a, v) == RNear(a, v, IF REq(v, R0) /\ kind \notin {"electromagnetic_wave_1D", "gem_challenge"} THEN R0 ELSE IcScale(kind, p, pos, c, v), RDec("1e-11"))
IcOk(st, m, g, kind, p, pos, new, side) ==
  \E pi \in IF kind = "gem_challenge" THEN Pis ELSE {R1} :
  \A k \in 1..g.vol :
    LET y == Coord(g, k) IN IsInterior(g, y) =>
    LET x == Centre(st, m, y) c == y[g.n + 2]
        At(b, e) == k + e <= g.vol => IcNear(kind, p, pos, c + e, new[k + e], IcValPi(pi, kind, p, pos, SideAt(kind, p, x, b), c + e))
    IN IF ~OnJump(kind, p, x) THEN IcNear(kind, p, pos, c, new[k], IcValPi(pi, kind, p, pos, x, c))
       ELSE IF kind # "radial_shock_tube" THEN At(side, 0)
       ELSE IF c = 0 THEN \E b \in BOOLEAN : At(b, 0) /\ At(b, 4)
       ELSE c = 4 \/ At(TRUE, 0)
=============================================================================
