------------------------------- MODULE T_Chunk ------------------------------
EXTENDS QkChunk, QkTrace
VARIABLES l, st          \* st: slot -> chunk;  variables live in slots 10..
Blank(m, d, g, v) == [mesh |-> m, data |-> d, g |-> g, v |-> v]
ANYV == <<-999999>>
NoChunk == Blank(<<>>, <<>>, 2, ANYV)
G(e) == IF Has(e, "g") THEN e.g ELSE 2
ByVar(e) == 10 + e.s
VarOf(e) == Blank(e.mesh, <<<<0, e.np>>, <<0, Len(e.comps)>>>>, G(e), <<>>) @@ [name |-> e.name, comps |-> e.comps, np |-> e.np, bn |-> e.basis]
Size(c) == Volume(Storage(c.mesh, c.data, c.g))
Target(e) == IF e.op \in {"x.var", "x.varcopy", "x.varmark"} THEN ByVar(e) ELSE e.s
New(e) ==
  CASE e.op = "x.new"    -> NoChunk
    [] e.op = "x.resize" -> Blank(e.mesh, e.data, G(e), IF st[e.s].mesh = <<>> \/ (Size(st[e.s]) = 0) THEN <<>>
                                  ELSE IF st[e.s].mesh = e.mesh /\ st[e.s].data = e.data /\ st[e.s].g = G(e) THEN st[e.s].v ELSE ANYV)
    [] e.op \in {"x.copy", "x.assign"} -> st[e.t]
    [] e.op = "x.var"    -> VarOf(e)
    [] e.op = "x.varcopy" -> st[10 + e.t]
    [] OTHER -> LET c == st[Target(e)] IN [c EXCEPT !.v = IF Size(c) = 0 THEN <<>> ELSE [i \in 1..Size(c) |-> e.v + i - 1]]
ContentShown(c, o) == CASE c.v = ANYV -> TRUE
                        [] c.v = <<>>  -> o.zero
                        [] OTHER       -> ~o.zero /\ o.v = c.v
Shown(c, o) == GeometryShown(c, o) /\ ContentShown(c, o)
Conforms(ev) ==
  LET e == ev.e IN
  CASE e.op = "reset" -> TRUE
    [] e.op = "x.new" -> ev.st = "ok"
    [] e.op \in {"x.var", "x.varcopy"} ->
         LET c == New(e) IN /\ ev.st = "ok" /\ ev.obs.chunks = 1 /\ Shown(c, ev.obs.c)
                            /\ ev.obs.name = c.name /\ ev.obs.comps = c.comps /\ ev.obs.np = c.np /\ ev.obs.bn = c.bn
    [] OTHER -> ev.st = "ok" /\ Shown(New(e), ev.obs)
Init == l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ st' = IF Trace[l].e.op = "reset" THEN <<>> ELSE (Target(Trace[l].e) :> TLCEval(New(Trace[l].e))) @@ st
=============================================================================
