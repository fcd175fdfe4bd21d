------------------------------- MODULE MC_Steps -------------------------------
(* C23, design: is the discipline of QkSteps worth following?  Every program    *)
(* of solver calls, in any order and with any wiring of the variables, that     *)
(* the discipline allows is explored, with the contents of the variables as     *)
(* symbolic terms; a completed step always has the value of the integrator's    *)
(* definition.  Broken names a rule that is left out (negative controls).       *)
EXTENDS QkSteps
CONSTANTS Kind, Model, NState, NRhs, MaxN, Broken
VARIABLES s, c, g, r          \* discipline state; contents of interiors, ghost cells and right-hand sides
vars == <<s, c, g, r>>
Homes == IF Model = "plasma" THEN {1, 2} ELSE {1}
NC(f) == IF Model = "field" \/ f = 2 THEN 6 ELSE 5
V == 1..NState
W == (NState + 1)..(NState + NRhs)
Junk == <<"junk">>
WSet(v, how, gh, of) == {[v |-> v, nc |-> 5, how |-> how, gh |-> gh, of |-> of]}
\* --------------------------------------------------------------- the definition
RECURSIVE Ref(_, _, _)
Rate(f, n, k) == LET u(h) == Ref(h, n, k) IN
  {<<IF NC(f) = 5 THEN "euler" ELSE "maxwell", {<<u(f), u(f)>>}>>} \cup
  (IF Model # "plasma" THEN {} ELSE IF NC(f) = 5 THEN {<<"lorentz_force", {<<u(1)>>, <<u(2)>>}>>} ELSE {<<"current_source", {<<u(1)>>}>>})
Ref(f, n, k) == IF k = 0 THEN <<"u", f, n>> ELSE <<"stage", k - 1, {<<"u", f, n>>, Ref(f, n, k - 1)}, {<<t, 1>> : t \in Rate(f, n, k - 1)}>>
Final(f, n) == Ref(f, n, Stages[Kind])
\* --------------------------------------------------------------- terms as the solvers compute them
Term(kind, rd) == <<kind, {IF kind \in Fluxes THEN <<c[x], g[x]>> ELSE <<c[x]>> : x \in rd}>>
Count(b, t) == IF \E x \in b : x[1] = t THEN (CHOOSE x \in b : x[1] = t)[2] ELSE 0
Plus(b, t) == {x \in b : x[1] # t} \cup {<<t, Count(b, t) + 1>>}
\* --------------------------------------------------------------- rules left out
NoGhost == [s EXCEPT !.st = [v \in DOMAIN s.st |-> [s.st[v] EXCEPT !.gh = {1}]]]
NoReset == [s EXCEPT !.rhs = [w \in W |-> [terms |-> {}, n |-> 0, k |-> 0, used |-> FALSE]]]
AddState == IF Broken = "ghost" THEN NoGhost ELSE IF Broken = "reset" THEN NoReset ELSE s
StageState(h, k) == IF Broken = "stage" /\ h \in DOMAIN s.rhs THEN [s EXCEPT !.rhs[h].k = k]
                    ELSE IF Broken = "reset" /\ h \in DOMAIN s.rhs THEN [s EXCEPT !.rhs[h].used = FALSE] ELSE s
Init == /\ s = DoInit(Start, {[v |-> f, nc |-> NC(f), how |-> "set", gh |-> {}, of |-> 0] : f \in Homes})
        /\ c = [v \in V |-> IF v \in Homes THEN <<"u", v, 0>> ELSE Junk] /\ g = [v \in V |-> Junk] /\ r = [w \in W |-> {<<Junk, 1>>}]
Bc(v) == /\ CanBc(s, "p", WSet(v, "bc", {1}, 0)) /\ s' = DoBc(s, "p", WSet(v, "bc", {1}, 0)) /\ g' = [g EXCEPT ![v] = c[v]] /\ UNCHANGED <<c, r>>
Reset(w) == /\ CanReset(s, WSet(w, "zero", {1}, 0)) /\ s' = DoReset(s, WSet(w, "zero", {1}, 0)) /\ r' = [r EXCEPT ![w] = {}] /\ UNCHANGED <<c, g>>
Add(kind, rdv, w) ==
  LET rd == {[v |-> v, g |-> IF kind \in Fluxes THEN {1} ELSE {}] : v \in rdv} IN
  /\ CanAdd(AddState, kind, rd, WSet(w, "acc", {}, 0), 1, 0)
  /\ s' = DoAdd(IF w \in DOMAIN s.rhs THEN s ELSE [s EXCEPT !.rhs = (w :> [terms |-> {}, n |-> 0, k |-> 0, used |-> FALSE]) @@ @], kind, rd, WSet(w, "acc", {}, 0), 0)
  /\ r' = [r EXCEPT ![w] = Plus(@, Term(kind, rdv))] /\ UNCHANGED <<c, g>>
Stage(k, u, q, h, v) ==
  LET rd == {[v |-> x, g |-> {}] : x \in {u, q, h}} IN
  /\ h \in DOMAIN s.rhs
  /\ CanStage(StageState(h, k), Kind, k, rd, WSet(v, "set", {1}, 0), 1)
  /\ s' = DoStage(s, Kind, k, rd, WSet(v, "set", {1}, 0))
  /\ c' = [c EXCEPT ![v] = <<"stage", k, {c[u], c[q]}, r[h]>>] /\ g' = [g EXCEPT ![v] = Junk] /\ UNCHANGED r
Swap(a, b) ==
  LET wr == WSet(a, "copy", {}, b) \cup WSet(b, "copy", {}, a) IN
  /\ a # b /\ CanMove(s, wr) /\ s' = DoMove(s, wr) /\ UNCHANGED r
  \* a completed state gets its name
  /\ LET done == s'.n > s.n old(v) == IF v = a THEN b ELSE IF v = b THEN a ELSE v
         nm(x) == IF done /\ \E f \in Homes : x = Final(f, s.n) THEN LET f == CHOOSE f \in Homes : x = Final(f, s.n) IN <<"u", f, s.n + 1>> ELSE x
     IN c' = [v \in V |-> nm(c[old(v)])] /\ g' = [v \in V |-> nm(g[old(v)])]
Next == /\ s.n < MaxN
        /\ \/ \E v \in V : Bc(v)
           \/ \E w \in W : Reset(w)
           \/ \E v \in V, w \in W, kind \in Fluxes : (v \in DOMAIN s.st /\ (kind = "euler") = (NC(s.st[v].fam) = 5)) /\ Add(kind, {v}, w)
           \/ Model = "plasma" /\ \E a, b \in V, w \in W : a # b /\ a \in DOMAIN s.st /\ b \in DOMAIN s.st /\ s.st[a].fam = 1 /\ s.st[b].fam = 2 /\ Add("lorentz_force", {a, b}, w)
           \/ Model = "plasma" /\ \E a \in V, w \in W : a \in DOMAIN s.st /\ s.st[a].fam = 1 /\ Add("current_source", {a}, w)
           \/ \E k \in 0..(Stages[Kind] - 1), u, q, v \in V, h \in W : (k = 0 => q = u) /\ Stage(k, u, q, h, v)
           \/ \E a, b \in V : a < b /\ Swap(a, b)
\* a completed step is the integrator's definition, for every evolved variable
Sound == (~s.begun /\ \A f \in Homes : Current(s, f)) => \A f \in Homes : c[f] = <<"u", f, s.n>>
\* and it can be completed (checked by its negation)
NeverDone == s.n < MaxN
=============================================================================
