-------------------------------- MODULE T_Same --------------------------------
(* C21: two executions of one history, side by side: under a schedule of       *)
(* several threads (a) and sequentially (b).  After every operation all        *)
(* variables have the same values in both, to rounding.                        *)
EXTENDS QkTrace, QkReal
VARIABLES l, va, vb
Put(v, ch) == [k \in DOMAIN v \cup {<<ch[i].m, ch[i].i>> : i \in DOMAIN ch} |->
                 IF \E i \in DOMAIN ch : <<ch[i].m, ch[i].i>> = k THEN ch[CHOOSE i \in DOMAIN ch : <<ch[i].m, ch[i].i>> = k].v ELSE v[k]]
NaN(x) == ~RNear(x, x, R1, R1)
Close(x, y) == x = y \/ RNear(x, y, R1 \oplus RAbs(y), RDec("1e-9")) \/ (NaN(x) /\ NaN(y))
Zeros(s) == [i \in DOMAIN s |-> R0]
SameAt(k, a, b) == LET x == IF k \in DOMAIN a THEN a[k] ELSE Zeros(b[k]) y == IF k \in DOMAIN b THEN b[k] ELSE Zeros(a[k])
                   IN Len(x) = Len(y) /\ \A i \in DOMAIN x : Close(x[i], y[i])
Conforms(ev) == LET a == TLCEval(Put(va, ev.a)) b == TLCEval(Put(vb, ev.b))
                    ks == {<<ev.a[i].m, ev.a[i].i>> : i \in DOMAIN ev.a} \cup {<<ev.b[i].m, ev.b[i].i>> : i \in DOMAIN ev.b}
                IN ev.sta = ev.stb /\ ev.nwa = ev.nwb /\ \A k \in ks : SameAt(k, a, b)
Init == l = 1 /\ va = <<>> /\ vb = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ va' = IF Trace[l].e.op = "reset" THEN <<>> ELSE Put(va, Trace[l].a)
        /\ vb' = IF Trace[l].e.op = "reset" THEN <<>> ELSE Put(vb, Trace[l].b)
=============================================================================
