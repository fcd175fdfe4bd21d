------------------------------- MODULE T_Grid --------------------------------
(* C19 and the grid, basis and exception part of C22: recorded grids.        *)
EXTENDS QkGrid, QkTrace
VARIABLES l, g          \* g: slot -> [b, s, w, o: what was last reported, rect]
Ev == Trace[l]
Rejected(ev) == ev.st = "qk" /\ ev.msg # "" /\ ev.kept
Struct(x, o) == Len(o) = Len(x.b) /\ \A d \in Dims(x.b) : TileDim(RLen(x.b, d), x.s[d], x.w[d], o[d])
New(e) == [b |-> e.b, s |-> e.start, w |-> e.width]
GridOp(e) == e.op \in {"g.new", "g.get", "g.copy", "s.new", "s.bias", "s.get", "s.copy"}
Key(e) == <<IF e.op \in {"g.new", "g.get", "g.copy"} THEN "g" ELSE "s", e.k>>
From(e) == <<Key(e)[1], e.of>>
BiasOut(x, e) == e.d < 0 \/ e.d >= Len(x.b) \/ (e.how = "sym" /\ RLen(x.b, e.d + 1) % 2 = 1)
GetOut(x, e) == \/ e.d < 0 \/ e.d >= Len(x.b)
                \/ (IF e.op = "s.get" THEN e.w \in {"dx", "xc"} ELSE e.w = "xc") /\ (e.c < Lo(x.b, e.d + 1) \/ e.c >= Hi(x.b, e.d + 1))
Shown(x, e) == LET o == IF e.op = "s.get" THEN x.o[e.d + 1] ELSE x.o.d[e.d + 1] i == e.c - Lo(x.b, e.d + 1) + 1 IN
  CASE e.w = "start" -> o.s [] e.w = "width" -> o.w
    [] e.w = "dx" -> IF e.op = "s.get" THEN o.dx[i] ELSE o.dx
    [] OTHER -> o.xc[i]
Conforms(ev) ==
  LET e == ev.e o == ev.obs IN
  /\ GridOp(e) => o.moved = <<>>       \* no operation touches another grid
  /\ CASE e.op = "reset" -> TRUE
    [] e.op \in {"s.copy", "g.copy"} -> ev.st = "ok" /\ o.g = g[From(e)].o
    [] e.op = "g.new" -> ev.st = "ok" /\ RectOk(e.b, e.start, e.width, o.g) /\ Len(o.g.cells) = Volume([d \in Dims(e.b) |-> <<Lo(e.b, d) - 2, Hi(e.b, d) + 2>>])
    [] e.op = "s.new" -> ev.st = "ok" /\ Struct(New(e), o.g)
    [] e.op = "s.bias" ->
         LET x == g[Key(e)] IN
         IF BiasOut(x, e) THEN Rejected(ev) /\ o.g = x.o
         ELSE /\ ev.st = "ok" /\ Struct(x, o.g)
              /\ \A d \in Dims(x.b) : d # e.d + 1 => o.g[d] = x.o[d]
              /\ BiasedOk(o.g[e.d + 1], x.w[e.d + 1], e.how, e.pow)
              /\ e.how = "sym" => Mirror(o.g[e.d + 1], x.w[e.d + 1])
    [] e.op \in {"s.get", "g.get"} ->
         LET x == g[Key(e)] IN
         IF GetOut(x, e) THEN Rejected(ev) /\ o.g = x.o
         ELSE ev.st = "ok" /\ o.g = x.o /\ o.x = Shown(x, e)
    [] e.op = "exc" -> ev.st = "ok" /\ o.c = e.t /\ \A i \in 1..Len(o.same) : o.same[i] = e.t /\ o.app = <<e.t \o e.u, e.t \o e.u, e.t \o e.u>> /\ o.app2 = (e.t \o e.u) \o e.u
    [] e.op = "face" -> IF e.pp # 1 THEN Rejected(ev) /\ (<<"f", e.k>> \in DOMAIN g => o.fb = g[<<"f", e.k>>]) ELSE ev.st = "ok"
    [] OTHER -> FALSE
Init == l = 1 /\ g = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Ev))
        /\ l' = l + 1
        /\ g' = CASE Ev.e.op = "reset" -> <<>>
                  [] Ev.e.op \in {"g.new", "s.new"} -> (Key(Ev.e) :> (New(Ev.e) @@ [o |-> Ev.obs.g])) @@ g
                  [] Ev.e.op \in {"s.copy", "g.copy"} -> (Key(Ev.e) :> g[From(Ev.e)]) @@ g
                  [] Ev.e.op = "s.bias" -> [g EXCEPT ![Key(Ev.e)] = [@ EXCEPT !.o = Ev.obs.g]]
                  [] Ev.e.op = "face" -> (<<"f", Ev.e.k>> :> Ev.obs.fb) @@ g
                  [] OTHER -> g
=============================================================================
