------------------------------ MODULE T_Array -------------------------------
EXTENDS QkArray, QkTrace, QkReal
VARIABLES l, st
SameV(exp, obs) == Len(obs) = Len(exp) /\ \A i \in 1..Len(exp) : exp[i] = ANY \/ exp[i] = obs[i]
\* v: storage order; v2 / v3 (present only when different): by coordinates / by iterator
Shows(f, obs) ==
  /\ {obs[i].s : i \in 1..Len(obs)} = DOMAIN f
  /\ \A i \in 1..Len(obs) : /\ obs[i].b = f[obs[i].s].b
                            /\ SameV(f[obs[i].s].v, obs[i].v)
                            /\ ~Has(obs[i], "v2") /\ ~Has(obs[i], "v3")
Mark(f, e) == (e.s :> [f[e.s] EXCEPT !.v = [i \in 1..Len(f[e.s].v) |-> e.v + i]]) @@ f
New(e) == IF e.op = "a.mark" THEN Mark(st, e) ELSE ArrApply(st, e)
BigOk(e, o) ==   \* source holds its own storage offsets, destination -1
  LET in(x) == Contains(e.to, x) IN
  /\ o.n = Volume(e.to)
  /\ \A k \in 1..Len(e.at) : LET x == Unrank(e.tb, e.at[k]) IN
       CASE e.o = "pull" -> o.v[k] = IF in(x) THEN Address(e.fb, Unrank(e.from, Address(e.to, x))) ELSE -1
         [] e.o = "fill" -> o.v[k] = IF in(x) THEN 7 ELSE -1
         [] e.o = "fillc" -> o.v[k] = IF in(x) THEN -1 ELSE e.at[k] + 1     \* chunks that held 1, 2, 3 ...
         [] e.o = "mul" -> o.v[k] = IF in(x) THEN 3 * (e.at[k] + 1) ELSE e.at[k] + 1
RealOk(e, o) ==  \* one operation on chunks holding any doubles: copies keep every bit, products are IEEE products
  LET in(i) == Contains(e.r, Unrank(e.b, i - 1)) IN
  /\ Len(o.v) = Len(e.v) /\ Len(o.w) = Len(e.w)
  /\ o.w = IF e.o = "swap" THEN e.v ELSE e.w
  /\ \A i \in 1..Len(e.v) :
       CASE e.o = "mul" -> IF in(i) THEN RSame(o.v[i], RMul(e.v[i], e.x)) ELSE o.v[i] = e.v[i]
         [] e.o = "fill" -> o.v[i] = e.x
         [] e.o = "fillr" -> o.v[i] = IF in(i) THEN e.x ELSE e.v[i]
         [] e.o \in {"pullr", "copyto"} -> o.v[i] = IF in(i) THEN e.w[i] ELSE e.v[i]
         [] OTHER -> o.v[i] = e.w[i]
Conforms(ev) ==
  LET e == ev.e IN
  CASE e.op = "reset" -> TRUE
    [] e.op = "a.big" -> ev.st = "ok" /\ BigOk(e, ev.obs)
    [] e.op = "a.real" -> ev.st = "ok" /\ RealOk(e, ev.obs)
    [] ArrRejects(st, e) -> ev.st = "qk" /\ ev.msg # "" /\ Shows(st, ev.obs)
    [] OTHER -> ev.st = "ok" /\ Shows(New(e), ev.obs)
Observed(new, obs) == [s \in DOMAIN new |->
   LET k == CHOOSE i \in 1..Len(obs) : obs[i].s = s IN [new[s] EXCEPT !.v = obs[k].v]]
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ st' = IF Trace[l].e.op = "reset" THEN <<>>
                 ELSE IF Trace[l].e.op \in {"a.big", "a.real"} THEN st
                 ELSE TLCEval(Observed(New(Trace[l].e), Trace[l].obs))
=============================================================================
