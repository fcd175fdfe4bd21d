------------------------------ MODULE MC_System ------------------------------
(* C10: histories of solver calls over a set of variables.  Contents are     *)
(* terms: which calls, applied to which contents, produced them.  The model  *)
(* fixes what each call reads and writes and when it is refused; histories   *)
(* drawn from it (simulation) are executed on the real code and every step   *)
(* is judged by T_Sys.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fluids, Fields, HistLen, Ops
Vars == Fluids \cup Fields
VARIABLES c, hist, last      \* c: variable -> term (created variables only);  last: the last call
Zero == <<"zero">>
None == [o |-> "none", in |-> <<>>, out |-> <<>>, tag |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
Kind(v) == IF v \in Fluids THEN "fluid" ELSE "field"
\* one call: [o, in, out, tag]
Targets(e) ==
  CASE e.o \in {"fill", "bc", "swap"} -> Rng(e.out)
    [] e.o = "rk1" -> IF e.tag = 0 THEN {e.out[1]} ELSE {}
    [] e.o = "rk3" -> IF e.tag \in 0..2 THEN {e.out[e.tag + 1]} ELSE {}
    [] e.o \in {"lorentz", "current"} -> {e.out[1]}
    [] OTHER -> {}
Refused(f, e) == \/ e.o = "swap" /\ Len(e.out) % 2 = 1
                 \/ \E v \in Rng(e.in) : v \notin DOMAIN f
Get(f, v) == IF v \in DOMAIN f THEN f[v] ELSE Zero
RECURSIVE Swaps(_, _)
Swaps(f, s) == IF s = <<>> THEN f ELSE Swaps([f EXCEPT ![s[1]] = f[s[2]], ![s[2]] = f[s[1]]], SubSeq(s, 3, Len(s)))
Value(f, e, v) ==
  CASE e.o = "fill" -> <<"fill", e.tag>>
    [] e.o = "bc" -> IF f[v][1] = "fill" \/ (f[v][1] = "bc" /\ f[v][2] = e.tag) THEN f[v] ELSE <<"bc", e.tag, f[v]>>
    [] e.o = "rk3" -> <<"rk3", e.tag, f[e.in[1]], f[e.in[2]], IF e.tag > 0 THEN f[e.out[e.tag]] ELSE Zero>>
    [] OTHER -> <<e.o, e.tag, [i \in 1..Len(e.in) |-> f[e.in[i]]], f[v]>>
Apply(f, e) ==
  IF Refused(f, e) THEN f
  ELSE LET g == [v \in DOMAIN f \cup Rng(e.out) |-> Get(f, v)] IN
       IF e.o = "swap" THEN Swaps(g, e.out) ELSE [v \in DOMAIN g |-> IF v \in Targets(e) THEN Value(g, e, v) ELSE g[v]]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Same(s) == \A i, j \in 1..Len(s) : Kind(s[i]) = Kind(s[j])
Seqs(S, n) == [1..n -> S]
\* the calls the solvers are meant for: outputs of a call are distinct from each other and from its inputs
Calls ==
       {[o |-> "fill", in |-> <<>>, out |-> s, tag |-> t] : s \in UNION {Seqs(Vars, n) : n \in {1, 2}}, t \in {0, 1}}
  \cup {[o |-> "bc", in |-> <<>>, out |-> s, tag |-> t] : s \in Seqs(Vars, 1), t \in {0, 1}}
  \cup {[o |-> "swap", in |-> <<>>, out |-> s, tag |-> 0] : s \in {x \in UNION {Seqs(Vars, n) : n \in {1, 2, 4}} : Same(x)}}
  \cup {[o |-> "rk1", in |-> s, out |-> <<v>>, tag |-> t] : s \in {x \in Seqs(Vars, 2) : Same(x)}, v \in Vars, t \in {0, 1}}
  \cup {[o |-> "rk3", in |-> <<s[1], s[2]>>, out |-> <<s[3], s[4], s[5]>>, tag |-> t] : s \in {x \in Seqs(Fluids, 5) : Distinct(x)}, t \in {0, 1, 2, 3}}
  \cup {[o |-> "lorentz", in |-> <<a, f>>, out |-> <<b>>, tag |-> 0] : a \in Fluids, b \in Fluids, f \in Fields}
  \cup {[o |-> "current", in |-> s, out |-> <<f>>, tag |-> 0] : s \in UNION {Seqs(Fluids, n) : n \in {1, 2}}, f \in Fields}
  \cup {[o |-> "print", in |-> <<v>>, out |-> <<>>, tag |-> 0] : v \in Vars}
Legal(e) == /\ e.o \in Ops
            /\ e.o \in {"rk1", "lorentz"} => ~(e.out[1] \in Rng(e.in))
            /\ e.o = "rk1" => Same(e.in \o e.out)
Do(e) == c' = Apply(c, e) /\ hist' = Append(hist, e) /\ last' = e
Init == c = <<>> /\ hist = <<>> /\ last = None
Next == Len(hist) < HistLen /\ \E e \in Calls : Legal(e) /\ Do(e)
\* ---- what holds of every history
Frame == [][/\ DOMAIN c \subseteq DOMAIN c'
            /\ \A v \in DOMAIN c' : v \notin Targets(last') => c'[v] = Get(c, v)
            /\ Refused(c, last') => c' = c]_<<c, hist, last>>
SwapBack == \A e \in {x \in Calls : x.o = "swap" /\ Len(x.out) = 2} : Apply(Apply(c, e), e) = Apply(c, [e EXCEPT !.o = "print", !.in = <<>>])
BcAgain == \A e \in {x \in Calls : x.o = "bc"} : Apply(Apply(c, e), e) = Apply(c, e)
FillForgets == \A e \in {x \in Calls : x.o = "fill"} : \A v \in Rng(e.out) : Apply(c, e)[v] = <<"fill", e.tag>>
\* ---- random histories for the real code
CallsOf(o) == {e \in Calls : e.o = o /\ Legal(e)}
SimNext == /\ Len(hist) < HistLen
           /\ \E o \in {RandomElement(Ops)} : \E e \in {RandomElement(CallsOf(o))} :
                \E retry \in {RandomElement(0..3)} :
                  IF Refused(c, e) /\ retry # 0 THEN UNCHANGED <<c, hist>> /\ last' = [last EXCEPT !.tag = 1 - last.tag]
                  ELSE c' = [v \in DOMAIN Apply(c, e) |-> Zero] /\ hist' = Append(hist, e) /\ last' = e
View == <<c, Len(hist)>>
Emit == Len(hist) >= HistLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
