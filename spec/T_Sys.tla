-------------------------------- MODULE T_Sys -------------------------------
(* Trace specification of the system (C06-C08, C10-C18, C20, C22): every    *)
(* recorded operation has to be a step of QkSystem.  Contents are taken     *)
(* from the recording after each step, so every step is judged on its own.  *)
EXTENDS QkSystem, QkTrace
VARIABLES l, st

Range1(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------ reading an observation
PairsNew(o)  == {<<o.nw[i].m, o.nw[i].i>> : i \in 1..Len(o.nw)}
PairsCh(o)   == {<<o.ch[i].m, o.ch[i].i>> : i \in 1..Len(o.ch)}
ChOf(o, p)   == o.ch[CHOOSE i \in 1..Len(o.ch) : o.ch[i].m = p[1] /\ o.ch[i].i = p[2]].v
\* contents shown through id p[2] of manager p[1] after the step; s: state before, with new declarations
ValOf(s, o, p) == IF p \in PairsCh(o) THEN ChOf(o, p)
                  ELSE IF p \in s.seen THEN s.vars[KeyOf(s, p[1], p[2])].v
                  ELSE Zeros(Volume(StorageOf(s, p[1], p[2])))
HeaderOk(s, h) ==
  LET i == s.ids[h.i] S == StorageOf(s, h.m, h.i) IN
  /\ h.name = i.name /\ h.comps = i.comps /\ h.bn = i.bn /\ h.np = i.np
  /\ h.b = S /\ h.in = Interior(s.mg[h.m].mesh, DataRange(s, h.i)) /\ h.g = NG /\ h.nch = 1 /\ h.n = Volume(S)
\* the state shown after the step
Post(s, o) ==
  LET vis == s.seen \cup PairsNew(o)
      fresh == PairsCh(o) \cup PairsNew(o)
      keys == {KeyOf(s, p[1], p[2]) : p \in fresh}
      rep(k) == CHOOSE p \in fresh : KeyOf(s, p[1], p[2]) = k
  IN [s EXCEPT !.seen = vis,
               !.vars = IF keys = {} THEN s.vars
                        ELSE TLCEval([k \in keys |-> [comps |-> s.ids[rep(k)[2]].comps, v |-> ValOf(s, o, rep(k))]]) @@ s.vars]
\* every id shows the storage it denotes, none other, and it stays reachable
Coherent(s, p, o) ==
  /\ o.gone = <<>>
  /\ PairsCh(o) \subseteq p.seen
  /\ \A i \in 1..Len(o.nw) : HeaderOk(s, o.nw[i]) /\ <<o.nw[i].m, o.nw[i].i>> \notin s.seen
  /\ \A q \in p.seen : KeyOf(s, q[1], q[2]) \in DOMAIN p.vars /\ ~Collides(p, q[1], q[2])
  /\ \A q \in (PairsCh(o) \cup PairsNew(o)) : ValOf(s, o, q) = p.vars[KeyOf(s, q[1], q[2])].v
  /\ \A m \in DOMAIN s.mg : \A i \in DOMAIN s.ids :
       KeyOf(s, m, i) \in DOMAIN p.vars /\ ~Collides(p, m, i) =>
          /\ <<m, i>> \in p.seen
          \* an alias of a changed variable shows the change
          /\ (<<m, i>> \in s.seen /\ p.vars[KeyOf(s, m, i)] # s.vars[KeyOf(s, m, i)]) => <<m, i>> \in PairsCh(o)
PtrOk(s, p, o) ==
  Has(o, "pt") =>
    /\ \A i \in 1..Len(o.pt) : LET a == o.pt[i] k == KeyOf(s, a[1], a[2]) IN
         /\ <<a[1], a[2]>> \in p.seen
         /\ k \in DOMAIN s.ptr => s.ptr[k] = <<a[3], a[4]>>
         /\ \A j \in 1..Len(o.pt) : LET b == o.pt[j] IN
              /\ (k = KeyOf(s, b[1], b[2])) = (a[3] = b[3])
              /\ (k = KeyOf(s, b[1], b[2])) = (a[4] = b[4])
    /\ \A i \in 1..Len(o.tm) : LET a == o.tm[i] IN REq(a[2], s.mg[a[1]].t) /\ REq(a[3], s.mg[a[1]].dt)
PtrNext(s, o) == IF ~Has(o, "pt") \/ o.pt = <<>> THEN s.ptr
                 ELSE TLCEval([k \in {KeyOf(s, o.pt[i][1], o.pt[i][2]) : i \in 1..Len(o.pt)} |->
                         LET i == CHOOSE i \in 1..Len(o.pt) : KeyOf(s, o.pt[i][1], o.pt[i][2]) = k IN <<o.pt[i][3], o.pt[i][4]>>]) @@ s.ptr

\* ------------------------------------------------ declarations made by an operation
Declare(e) ==
  CASE e.op = "reset" -> [Empty0 EXCEPT !.loose = IF Has(e, "loose") THEN Range1(e.loose) ELSE {}]
    [] e.op = "grid" -> [st EXCEPT !.mg = Put(@, e.m, [mesh |-> e.b, start |-> e.start, width |-> e.width, t |-> R0, dt |-> R0])]
    [] e.op = "id"   -> [st EXCEPT !.ids = Put(@, e.i, [name |-> e.name, comps |-> e.comps, bn |-> e.bn, np |-> e.np])]
    [] e.op = "time" -> [st EXCEPT !.mg = [@ EXCEPT ![e.m] = [@ EXCEPT !.t = e.t]]]
    [] e.op = "dt"   -> [st EXCEPT !.mg = [@ EXCEPT ![e.m] = [@ EXCEPT !.dt = e.dt]]]
    [] OTHER -> st
\* solver slots change only if the setup was accepted
SolNew(e) ==
  LET old == IF Has(e, "again") THEN st.sol[e.k] ELSE [s |-> e.s, p |-> <<>>, in |-> <<>>, out |-> <<>>] IN
  [old EXCEPT !.p = IF Has(e, "p") THEN e.p ELSE old.p,
              !.in = IF Has(e, "add") THEN old.in \o e.in ELSE e.in,
              !.out = IF Has(e, "add") THEN old.out \o e.out ELSE e.out]

\* ------------------------------------------------ definition of one solver call
Missing(s, m, I) == \E i \in I : ~Exists(s, m, i)
Clash(s, m, I) == \E i \in I : Collides(s, m, i)
ShapeDiff(s, a, b) == Len(s.ids[a].comps) # Len(s.ids[b].comps) \/ s.ids[a].np # s.ids[b].np
WrongArity(s, x) ==
  LET ni == Len(x.in) no == Len(x.out) IN
  CASE x.s \in {"euler", "maxwell"} -> ni # 1 \/ no # 1
    [] x.s = "lorentz_force" -> ni # 2 \/ no # 1
    [] x.s = "current_source" -> ni # Len(x.p.q) \/ no # 1
    [] x.s = "rk1" -> ni # 2 \/ no < 1
    [] x.s = "ssprk3" -> ni # 2 \/ no < 3
    [] x.s = "ssprk2_advection" -> ni # 1 \/ no # 2
    [] x.s = "swap" -> no % 2 # 0 \/ \E k \in 1..(no \div 2) : ShapeDiff(s, x.out[2 * k - 1], x.out[2 * k])
    [] x.s \in {"gem_challenge", "brio_wu_shock_tube"} -> no # 3
    [] OTHER -> FALSE
Reads(x) == IF x.s \in BcKinds \cup IcKinds \cup {"fill", "swap"} THEN {} ELSE Range1(x.in)
Rejects(s, m, x) == WrongArity(s, x) \/ Missing(s, m, Reads(x)) \/ Clash(s, m, Range1(x.out))

\* outputs that the call defines
Defined(x, tag) ==
  CASE x.s = "rk1" -> IF tag = 0 THEN {x.out[1]} ELSE {}
    [] x.s = "ssprk3" -> IF tag \in 0..2 THEN {x.out[tag + 1]} ELSE {}
    [] x.s = "ssprk2_advection" -> IF tag \in 0..1 THEN {x.out[tag + 1]} ELSE {}
    [] x.s = "print" -> {}
    [] OTHER -> Range1(x.out)

\* Old(s, k): contents before (a variable created by the call starts with zeros)
OldOf(s, p, k) == IF k \in DOMAIN s.vars THEN s.vars[k].v ELSE Zeros(Len(p.vars[k].v))
RECURSIVE SwapAll(_, _)
SwapAll(f, prs) == IF prs = <<>> THEN f
                   ELSE LET a == prs[1] b == prs[2] IN SwapAll(TLCEval([f EXCEPT ![a] = f[b], ![b] = f[a]]), SubSeq(prs, 3, Len(prs)))
RowsOk(s, m, x, rows) ==
  LET ns == [i \in 1..Len(x.in) |-> Volume(Interior(s.mg[m].mesh, DataRange(s, x.in[i])))]
      RECURSIVE start(_)
      start(i) == IF i = 1 THEN 0 ELSE start(i - 1) + ns[i - 1]
      tot == start(Len(x.in) + 1)
  IN /\ Len(rows) = tot
     /\ \A i \in 1..Len(x.in) :
          LET g == Geo(s, m, x.in[i]) v == s.vars[KeyOf(s, m, x.in[i])].v b == start(i) IN
          /\ Cardinality({rows[b + k].x : k \in 1..ns[i]}) = ns[i]
          /\ \A k \in 1..ns[i] : LET r == rows[b + k] IN
               /\ Len(r.x) = g.n + 2 /\ Contains(Interior(g.mesh, DataRange(s, x.in[i])), r.x)
               /\ RSame(r.v, v[Elem(g, r.x)]) \/ RNear(r.v, v[Elem(g, r.x)], RAbs(v[Elem(g, r.x)]), RDec("1e-5"))
CallOk(s, p, m, x, tag, o) ==
  LET key(i) == KeyOf(s, m, i)
      old(i) == OldOf(s, p, key(i))
      new(i) == p.vars[key(i)].v
      inp(n) == s.vars[key(x.in[n])].v
  IN
  CASE x.s \in BcKinds -> \A i \in Range1(x.out) : BcOk(Geo(s, m, i), x.s, BcDims(x.p), old(i), new(i))
    [] x.s \in IcKinds -> \E side \in IF x.s \in {"shock_tube", "brio_wu_shock_tube"} THEN BOOLEAN ELSE {TRUE} : \A k \in 1..Len(x.out) :
         IcOk(s, m, Geo(s, m, x.out[k]), x.s, x.p, k, new(x.out[k]), side)
    [] x.s = "fill" -> \A i \in Range1(x.out) : \A k \in 1..Len(new(i)) : RSame(new(i)[k], x.p.value)
    [] x.s = "swap" ->
         LET f == SwapAll(TLCEval([k \in {key(i) : i \in Range1(x.out)} |-> OldOf(s, p, k)]), [n \in 1..Len(x.out) |-> key(x.out[n])])
         IN \A k \in DOMAIN f : p.vars[k].v = f[k]
    [] x.s = "rk1" -> tag = 0 => RkOk(0, s.mg[m].dt, inp(1), inp(2), inp(1), new(x.out[1]))
    [] x.s = "ssprk3" -> tag \in 0..2 => RkOk(tag, s.mg[m].dt, inp(1), inp(2), IF tag = 0 THEN inp(1) ELSE old(x.out[tag]), new(x.out[tag + 1]))
    [] x.s = "lorentz_force" -> LorentzOk(Geo(s, m, x.in[1]), Geo(s, m, x.in[2]), x.p.q \oslash x.p.ms, inp(1), inp(2), old(x.out[1]), new(x.out[1]))
    [] x.s = "current_source" ->
         CurrentOk(Geo(s, m, x.out[1]), x.p.eps0, [n \in 1..Len(x.in) |-> Geo(s, m, x.in[n])], [n \in 1..Len(x.in) |-> inp(n)],
                   [n \in 1..Len(x.in) |-> x.p.q[n] \oslash x.p.ms[n]], old(x.out[1]), new(x.out[1]))
    [] x.s = "maxwell" -> MaxwellOk(s, m, Geo(s, m, x.in[1]), x.p.c, inp(1), old(x.out[1]), new(x.out[1]))
    [] x.s = "euler" -> EulerOk(s, m, Geo(s, m, x.in[1]), x.p.gamma, inp(1), old(x.out[1]), new(x.out[1]))
    [] x.s = "ssprk2_advection" ->
         LET u == inp(1) base0(k) == u[k]
             w == old(x.out[1]) base1(k) == RHalf \otimes (u[k] \oplus w[k]) IN
         CASE tag = 0 -> AdvOk(s, m, Geo(s, m, x.in[1]), x.p.vel, R1, base0, u, new(x.out[1]))
           [] tag = 1 -> AdvOk(s, m, Geo(s, m, x.in[1]), x.p.vel, RHalf, base1, w, new(x.out[2]))
           [] OTHER -> TRUE
    [] x.s = "print" -> RowsOk(s, m, x, o.rows)

\* ------------------------------------------------ VTK (C20)
VtkRejects(s, e) ==
  LET I == Range1(e.ids) IN
  \/ \E i \in I : s.ids[i].bn # "volume_average" \/ s.ids[i].np # 1
  \/ Missing(s, e.m, I)
\* element of the interior cell number n (0-based, first dimension fastest)
RECURSIVE VtkCoord(_, _, _)
VtkCoord(mesh, n, d) == IF d > Len(mesh) THEN <<>> ELSE <<Lo(mesh, d) + (n % RLen(mesh, d))>> \o VtkCoord(mesh, n \div RLen(mesh, d), d + 1)
Digits15(a, b) == RSame(a, b) \/ RNear(a, b, RAbs(b), RDec("5e-15"))
VtkOk(s, e, f) ==
  IF e.ids = <<>> THEN TRUE
  ELSE
  LET g == s.mg[e.m] n == Len(g.mesh) vol == Volume(g.mesh)
      RECURSIVE pairs(_)
      pairs(k) == IF k > Len(e.ids) THEN <<>> ELSE [c \in 1..Len(s.ids[e.ids[k]].comps) |-> <<e.ids[k], c>>] \o pairs(k + 1)
      fs == pairs(1) IN
  /\ f.file /\ f.magic /\ f.ascii /\ ~f.junk /\ f.ds = "STRUCTURED_POINTS"
  /\ Len(f.order) = 5 /\ f.order[1] = "DATASET" /\ f.order[5] = "CELL_DATA"
  /\ f.dims = [d \in 1..3 |-> IF d <= n THEN RLen(g.mesh, d) + 1 ELSE 1]
  /\ Len(f.org) = 3 /\ Len(f.spc) = 3
  /\ \A d \in 1..n : Digits15(f.org[d], g.start[d]) /\ Digits15(f.spc[d], Dx(s, e.m, d))
  /\ f.cells = vol
  /\ Len(f.fields) = Len(fs)
  /\ \A k \in 1..Len(fs) :
       LET i == fs[k][1] c == fs[k][2] gg == Geo(s, e.m, i) v == s.vars[KeyOf(s, e.m, i)].v IN
       /\ f.fields[k].name = s.ids[i].name \o "." \o s.ids[i].comps[c]
       /\ f.fields[k].nc = 1 /\ Len(f.fields[k].v) = vol
       /\ \A q \in 1..vol : Digits15(f.fields[k].v[q], v[Elem(gg, VtkCoord(g.mesh, q - 1, 1) \o <<0, c - 1>>)])

\* ------------------------------------------------ relations between contents (C14, C17)
IntElems(g, c) == {k \in 1..g.vol : LET x == Coord(g, k) IN IsInterior(g, x) /\ x[g.n + 2] = c}
SumOver(s, m, i, c) == LET g == Geo(s, m, i) v == s.vars[KeyOf(s, m, i)].v
                       IN RSum([k \in 1..g.vol |-> LET x == Coord(g, k) IN IF IsInterior(g, x) /\ x[g.n + 2] = c THEN v[k] ELSE R0])
NoteOk(s, e) ==
  CASE e.rel = "sumzero" -> \A c \in 1..Len(s.ids[e.i].comps) : RNear(SumOver(s, e.m, e.i, c - 1), R0, e.scale[c], RDec("1e-10"))
    [] e.rel = "sumeq" -> \A c \in 1..Len(s.ids[e.i].comps) : RNear(SumOver(s, e.m, e.i, c - 1), SumOver(s, e.m, e.j, c - 1), e.scale[c], RDec("1e-10"))
    [] e.rel = "sumdiff" -> \A c \in 1..Len(s.ids[e.i].comps) : RNear(SumOver(s, e.m, e.i, c - 1), SumOver(s, e.m, e.j, c - 1) \oplus e.d, e.scale[c], RDec("1e-10"))
    [] e.rel = "sumavg" -> \A c \in 1..Len(s.ids[e.i].comps) :
         RNear(SumOver(s, e.m, e.i, c - 1), RHalf \otimes (SumOver(s, e.m, e.j, c - 1) \oplus SumOver(s, e.m, e.k, c - 1)), e.scale[c], RDec("1e-10"))
    [] e.rel = "add" ->       \* interior of i = base + sum of parts
         LET g == Geo(s, e.m, e.i) v(j) == s.vars[KeyOf(s, e.m, j)].v vi == v(e.i) vb == v(e.base)
             ps == TLCEval([n \in 1..Len(e.parts) |-> v(e.parts[n])]) IN
         \A k \in 1..g.vol : IsInterior(g, Coord(g, k)) =>
            LET t == [n \in 1..Len(ps) |-> ps[n][k]] IN
            RNear(vi[k], vb[k] \oplus RSum(t), (RAbs(vb[k]) \oplus RSumAbs(t)) \oplus e.sc, RDec("1e-10"))
    [] e.rel = "eq" ->        \* interior of (m, i) at x = sign * (n, j) at the permuted and shifted x, for the cells of box `in`, except `skip`
         LET g == Geo(s, e.m, e.i) h == Geo(s, e.n, e.j) vi == s.vars[KeyOf(s, e.m, e.i)].v vj == s.vars[KeyOf(s, e.n, e.j)].v IN
         \A k \in 1..g.vol :
            LET x == Coord(g, k) y == [d \in 1..g.n |-> x[d]] IN
            (IsInterior(g, x) /\ Contains(e.in, y) /\ y \notin Range1(e.skip)) =>
               LET z == [d \in 1..h.n |-> x[e.ax[d]] + e.off[d]] \o <<x[g.n + 1], e.cm[x[g.n + 2] + 1]>>
               IN RNear(vi[k], RInt(e.sg[x[g.n + 2] + 1]) \otimes vj[Elem(h, z)], RAbs(vi[k]) \oplus e.sc, RDec("1e-9"))

\* ------------------------------------------------ one event
Keys(s, m, I) == {KeyOf(s, m, i) : i \in {j \in I : ~Collides(s, m, j)}}
Created(s, p) == DOMAIN p.vars \ DOMAIN s.vars
Changed(s, p) == {k \in DOMAIN p.vars : p.vars[k].v # OldOf(s, p, k)}
Frame(s, p, must, may, targets) == must \subseteq DOMAIN p.vars /\ Created(s, p) \subseteq may /\ Changed(s, p) \subseteq targets
Rejected(ev, s, p, may) == /\ ev.st = "qk" /\ ev.msg # "" /\ ev.kept
                           /\ Created(s, p) \subseteq may /\ Changed(s, p) = {}
Quiet(s, p) == Created(s, p) = {} /\ Changed(s, p) = {}
Rule(ev, s, p) ==
  LET e == ev.e o == ev.obs IN
  CASE e.op \in {"reset", "grid", "time", "dt"} -> ev.st = "ok" /\ (e.op = "reset" \/ Quiet(s, p))
    [] e.op = "id" -> ev.st = "ok" /\ Quiet(s, p)
    [] e.op = "note" -> NoteOk(p, e)
    [] e.op = "mk" -> IF Has(e, "p") /\ (IF Has(e, "again") THEN s.sol[e.k].s ELSE e.s) = "current_source" /\ Len(e.p.q) # Len(e.p.ms)
                      THEN Rejected(ev, s, p, {}) ELSE ev.st = "ok" /\ Quiet(s, p)
    [] e.op = "out" -> IF Collides(s, e.m, e.i) THEN Rejected(ev, s, p, {})
                       ELSE ev.st = "ok" /\ Frame(s, p, Keys(s, e.m, {e.i}), Keys(s, e.m, {e.i}), {})
    [] e.op = "in" -> IF ~Exists(s, e.m, e.i) THEN Rejected(ev, s, p, {}) ELSE ev.st = "ok" /\ Quiet(s, p)
    [] e.op = "set" -> IF Collides(s, e.m, e.i) THEN Rejected(ev, s, p, {})
                       ELSE LET k == KeyOf(s, e.m, e.i) IN ev.st = "ok" /\ Frame(s, p, {k}, {k}, {k}) /\ p.vars[k].v = e.v
    [] e.op = "poke" -> IF Collides(s, e.m, e.i) THEN Rejected(ev, s, p, {})
                       ELSE LET k == KeyOf(s, e.m, e.i) u == OldOf(s, p, k) IN
                            /\ ev.st = "ok" /\ Frame(s, p, {k}, {k}, {k})
                            /\ p.vars[k].v = [n \in 1..Len(u) |-> IF (n - 1) \in Range1(e.at) THEN e.v[CHOOSE j \in 1..Len(e.at) : e.at[j] = n - 1] ELSE u[n]]
    [] e.op = "stages" -> ev.st = "ok" /\ Quiet(s, p) /\ o.n = StagesOf(s.sol[e.k].s)
    [] e.op = "solve" ->
         LET x == s.sol[e.k] O == Range1(x.out) D == Defined(x, e.tag) IN
         IF Rejects(s, e.m, x) THEN Rejected(ev, s, p, IF WrongArity(s, x) \/ Missing(s, e.m, Reads(x)) THEN {} ELSE Keys(s, e.m, O))
         ELSE /\ ev.st = "ok"
              /\ Frame(s, p, Keys(s, e.m, D), Keys(s, e.m, O), Keys(s, e.m, D))
              /\ x.s \in s.loose \/ CallOk(s, p, e.m, x, e.tag, o)
              /\ Has(e, "rep") => o.rep      \* a call repeated from the same state has the same effect, however often it was made
    [] e.op = "vtk" -> IF VtkRejects(s, e) THEN Rejected(ev, s, p, {})
                       ELSE ev.st = "ok" /\ Quiet(s, p) /\ VtkOk(s, e, o.vtk)
    [] e.op = "vtkbad" -> Rejected(ev, s, p, {})
Why(ev, s, p) ==
  IF ~Coherent(s, p, ev.obs) THEN "variables shown are not coherent"
  ELSE IF ~PtrOk(s, p, ev.obs) THEN "storage, time or time step not as specified"
  ELSE IF ~Rule(ev, s, p) THEN "status " \o ev.st \o ", changed " \o ToString(Changed(s, p)) \o ", created " \o ToString(Created(s, p))
  ELSE ""

Init == l = 1 /\ st = Empty0
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] s == Declare(ev.e) p == TLCEval(Post(s, ev.obs)) why == Why(ev, s, p) IN
           /\ Explain(l, IF why = "" THEN TRUE ELSE PrintT("WHY " \o why) /\ FALSE)
           /\ l' = l + 1
           /\ st' = [p EXCEPT !.ptr = PtrNext(s, ev.obs),
                              !.sol = IF ev.e.op = "mk" /\ ev.st = "ok" THEN Put(p.sol, ev.e.k, SolNew(ev.e)) ELSE p.sol]
=============================================================================
