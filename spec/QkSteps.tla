------------------------------- MODULE QkSteps -------------------------------
(* C23: the discipline of a time step.                                        *)
(* Every variable that holds a state of the solution has a record             *)
(*   [fam |-> the evolved variable it belongs to, n |-> step, k |-> stage,    *)
(*    gh |-> dimensions whose ghost cells belong to the present interior];    *)
(* a right-hand side has the terms collected since its last reset, and the    *)
(* stage they were evaluated at.  An evolved variable is one that an initial  *)
(* condition set; its family is its own number.  Solver calls are described   *)
(* by what they read and write:                                               *)
(*   rd: set of [v, g] - v is read, g: dimensions whose ghost cells are read  *)
(*   wr: set of [v, nc, how, gh, of]                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* stages of the integrators
Stages == [ssprk3 |-> 3, rk1 |-> 1, ssprk2_advection |-> 2]
Integrators == DOMAIN Stages
Fluxes == {"euler", "maxwell"}           \* need the ghost cells of all dimensions
Start == [st |-> <<>>, rhs |-> <<>>, fam |-> <<>>, n |-> 0, begun |-> FALSE, bc |-> <<>>, par |-> <<>>]
Drop(f, s) == [x \in DOMAIN f \ s |-> f[x]]
Vs(s) == {x.v : x \in s}
Live(s, v) == v \in DOMAIN s.st
\* --------------------------------------------------------------- initial conditions
CanInit(s, wr) == ~s.begun /\ s.n = 0
DoInit(s, wr) == [s EXCEPT !.st = [v \in Vs(wr) |-> [fam |-> v, n |-> 0, k |-> 0, gh |-> {}]] @@ @,
                           !.fam = [v \in Vs(wr) |-> (CHOOSE x \in wr : x.v = v).nc] @@ @]
\* --------------------------------------------------------------- boundaries
\* a family keeps the boundary kind of each dimension through all stages and steps
CanBc(s, kind, wr) == \A w \in wr : Live(s, w.v) /\ \A d \in w.gh : LET key == <<s.st[w.v].fam, d>> IN key \in DOMAIN s.bc => s.bc[key] = kind
DoBc(s, kind, wr) == [s EXCEPT !.st = [v \in Vs(wr) |-> [s.st[v] EXCEPT !.gh = @ \cup UNION {w.gh : w \in {x \in wr : x.v = v}}]] @@ @,
                               !.bc = [key \in UNION {{<<s.st[w.v].fam, d>> : d \in w.gh} : w \in wr} |-> kind] @@ @]
\* --------------------------------------------------------------- resets
CanReset(s, wr) == \A w \in wr : ~(Live(s, w.v) /\ w.v \in DOMAIN s.fam)    \* never an evolved variable
DoReset(s, wr) == [s EXCEPT !.rhs = [v \in Vs(wr) |-> [terms |-> {}, n |-> 0, k |-> 0, used |-> FALSE]] @@ @, !.st = Drop(@, Vs(wr))]
\* --------------------------------------------------------------- flux and source terms
TermOf(s, kind, rd) == <<kind, {s.st[r.v].fam : r \in rd}>>
CanAdd(s, kind, rd, wr, nd, par) ==
  /\ Cardinality(wr) = 1 /\ rd # {}
  /\ \A r \in rd : Live(s, r.v)
  /\ \A r \in rd, q \in rd : s.st[r.v].n = s.st[q.v].n /\ s.st[r.v].k = s.st[q.v].k /\ (r # q => s.st[r.v].fam # s.st[q.v].fam)
  /\ \A r \in rd : s.st[r.v].n = s.n /\ r.g \subseteq s.st[r.v].gh /\ (kind \in Fluxes => s.st[r.v].gh = 1..nd)
  /\ \A w \in wr, r \in rd : /\ w.v \in DOMAIN s.rhs /\ ~s.rhs[w.v].used
                             /\ (s.rhs[w.v].terms # {} => s.rhs[w.v].n = s.n /\ s.rhs[w.v].k = s.st[r.v].k)
                             /\ TermOf(s, kind, rd) \notin s.rhs[w.v].terms
  /\ LET t == TermOf(s, kind, rd) IN t \in DOMAIN s.par => s.par[t] = par       \* the same physics in every stage
DoAdd(s, kind, rd, wr, par) ==
  LET t == TermOf(s, kind, rd) v == (CHOOSE w \in wr : TRUE).v r == CHOOSE r \in rd : TRUE
  IN [s EXCEPT !.rhs[v] = [terms |-> @.terms \cup {t}, n |-> s.n, k |-> s.st[r.v].k, used |-> FALSE], !.par = (t :> par) @@ @, !.begun = TRUE]
\* --------------------------------------------------------------- integrator stages
Fluids(s) == {f \in DOMAIN s.fam : s.fam[f] = 5}
Fields(s) == {f \in DOMAIN s.fam : s.fam[f] = 6}
Expected(s, f) ==
  IF f \in Fluids(s) THEN {<<"euler", {f}>>} \cup {<<"lorentz_force", {f, g}>> : g \in Fields(s)}
  ELSE {<<"maxwell", {f}>>} \cup (IF Fluids(s) = {} THEN {} ELSE {<<"current_source", Fluids(s)>>})
States(s, rd) == {r \in rd : r.v \notin DOMAIN s.rhs}
CanStage(s, kind, k, rd, wr, nd) ==
  LET us == States(s, rd) hs == rd \ us IN
  /\ k \in 0..(Stages[kind] - 1) /\ Cardinality(wr) = 1
  /\ us # {} /\ \A r \in us : Live(s, r.v)
  /\ \A r \in us, q \in us : s.st[r.v].fam = s.st[q.v].fam
  /\ {<<s.st[r.v].n, s.st[r.v].k>> : r \in us} = {<<s.n, 0>>, <<s.n, k>>} /\ Cardinality(us) = Cardinality({0, k})
  /\ \A w \in wr : w.v \notin Vs(us)                                  \* a stage does not write what it reads
  /\ LET f == s.st[(CHOOSE r \in us : TRUE).v].fam IN
     IF kind = "ssprk2_advection"
     THEN hs = {} /\ \A r \in us : r.g \subseteq s.st[r.v].gh /\ (s.st[r.v].k = k => s.st[r.v].gh = 1..nd)
     ELSE /\ Cardinality(hs) = 1
          /\ \A h \in hs : ~s.rhs[h.v].used /\ s.rhs[h.v].n = s.n /\ s.rhs[h.v].k = k /\ s.rhs[h.v].terms = Expected(s, f)
          /\ \A r \in rd : r.g = {}
DoStage(s, kind, k, rd, wr) ==
  LET us == States(s, rd) hs == rd \ us f == s.st[(CHOOSE r \in us : TRUE).v].fam v == (CHOOSE w \in wr : TRUE).v
      last == k + 1 = Stages[kind]
      h == [fam |-> f, n |-> IF last THEN s.n + 1 ELSE s.n, k |-> IF last THEN 0 ELSE k + 1, gh |-> {}]
  IN [s EXCEPT !.st = (v :> h) @@ @, !.rhs = [x \in DOMAIN @ \ {v} |-> IF x \in Vs(hs) THEN [@[x] EXCEPT !.used = TRUE] ELSE @[x]], !.begun = TRUE]
\* --------------------------------------------------------------- replacing the old state
CanMove(s, wr) == \A w \in wr : Live(s, w.of)
Moved(s, wr) == [s EXCEPT !.st = [v \in Vs(wr) |-> s.st[(CHOOSE w \in wr : w.v = v).of]] @@ @]
AllNew(s) == DOMAIN s.fam # {} /\ \A f \in DOMAIN s.fam : Live(s, f) /\ s.st[f].fam = f /\ s.st[f].n = s.n + 1 /\ s.st[f].k = 0
DoMove(s, wr) == LET t == Moved(s, wr) IN IF AllNew(t) THEN [t EXCEPT !.n = @ + 1, !.begun = FALSE] ELSE t
\* --------------------------------------------------------------- output and end
Current(s, v) == Live(s, v) /\ s.st[v].fam = v /\ s.st[v].n = s.n /\ s.st[v].k = 0
CanWrite(s, vs) == ~s.begun /\ \A v \in vs : Current(s, v) /\ v \in DOMAIN s.fam
CanEnd(s) == ~s.begun /\ s.n > 0 /\ \A f \in DOMAIN s.fam : Current(s, f)
=============================================================================
