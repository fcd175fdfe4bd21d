------------------------------- MODULE T_Steps -------------------------------
(* C23: recorded calls of the shipped examples against the discipline of       *)
(* QkSteps.                                                                    *)
EXTENDS QkTrace, QkSteps
VARIABLES l, s
SeqSet(q) == {q[i] : i \in DOMAIN q}
Rd(o) == {[v |-> o.rd[i].v, g |-> SeqSet(o.rd[i].g)] : i \in DOMAIN o.rd}
Wr(o) == {[v |-> o.wr[i].v, nc |-> o.wr[i].nc, how |-> o.wr[i].how, gh |-> SeqSet(o.wr[i].gh), of |-> o.wr[i].of] : i \in DOMAIN o.wr}
Class(e, wr) == IF wr = {} THEN "none"
                ELSE IF e.s \in Integrators THEN "stage"
                ELSE IF \A w \in wr : w.how = "bc" THEN "bc"
                ELSE IF \A w \in wr : w.how = "zero" THEN "zero"
                ELSE IF \A w \in wr : w.how = "copy" THEN "copy"
                ELSE IF \A w \in wr : w.how = "acc" THEN "acc"
                ELSE IF \A w \in wr : w.how \in {"set", "zero"} THEN "set" ELSE "mixed"
\* The known finding in the advection example: its periodic boundaries have no dimensions, so its stages read
\* ghost cells that nobody set.  With the waiver only that requirement is left out.
Waiver == "QK_WAIVE" \in DOMAIN IOEnv /\ IOEnv.QK_WAIVE = "advection_ghosts"
ForStage(x, e, nd) == IF Waiver /\ e.s = "ssprk2_advection" THEN [x EXCEPT !.st = [v \in DOMAIN x.st |-> [x.st[v] EXCEPT !.gh = 1..nd]]] ELSE x
Time(e) == e.tok /\ e.ti = s.n /\ e.dtpos
Conforms(ev) ==
  LET e == ev.e IN
  /\ ev.st = "ok"
  /\ CASE e.op = "write" -> CanWrite(s, SeqSet(ev.obs.v))
       [] e.op = "end" -> CanEnd(s)
       [] OTHER ->
          LET rd == TLCEval(Rd(ev.obs)) wr == TLCEval(Wr(ev.obs)) c == Class(e, wr) nd == ev.obs.nd IN
          CASE c = "none" -> TRUE
            [] c = "bc" -> CanBc(s, e.s, wr)
            [] c = "zero" -> CanReset(s, wr)
            [] c = "copy" -> CanMove(s, wr)
            [] c = "acc" -> Time(e) /\ CanAdd(s, e.s, rd, wr, nd, ev.obs.fp)
            [] c = "stage" -> Time(e) /\ CanStage(ForStage(s, e, nd), e.s, e.tag, rd, wr, nd)
            [] c = "set" -> CanInit(s, wr)
            [] OTHER -> FALSE
After(ev) ==
  LET e == ev.e IN
  IF e.op # "solve" THEN s ELSE
  LET rd == TLCEval(Rd(ev.obs)) wr == TLCEval(Wr(ev.obs)) c == Class(e, wr) IN
  CASE c = "none" -> s
    [] c = "bc" -> DoBc(s, e.s, wr)
    [] c = "zero" -> DoReset(s, wr)
    [] c = "copy" -> DoMove(s, wr)
    [] c = "acc" -> DoAdd(s, e.s, rd, wr, ev.obs.fp)
    [] c = "stage" -> DoStage(s, e.s, e.tag, rd, wr)
    [] c = "set" -> DoInit(s, wr)
Init == l = 1 /\ s = Start
Next == /\ l <= Len(Trace)
        /\ Explain(l, Conforms(Trace[l]))
        /\ l' = l + 1
        /\ s' = After(Trace[l])
=============================================================================
