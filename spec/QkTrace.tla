------------------------------ MODULE QkTrace -------------------------------
(* Reading of recorded executions.  A trace is a sequence of events         *)
(*   [e |-> operation, st |-> "ok" | "qk" | "std", msg |-> text,            *)
(*    obs |-> what the public interface showed after the operation].        *)
(* Every trace specification advances l by one per event that the           *)
(* specification explains; Accepted holds when it explained all of them.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.QK_TRACE)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
\* Explain(l, ok): ok, with a report when it does not hold
Explain(l, ok) == IF ok THEN TRUE
                  ELSE PrintT("REJECT " \o ToString(l) \o " " \o ToString(Trace[l].e)) /\ FALSE
=============================================================================
