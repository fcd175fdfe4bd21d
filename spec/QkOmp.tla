-------------------------------- MODULE QkOmp --------------------------------
(* When is a parallel loop free of races?                                    *)
(* An access pattern of one storage location: for every way of accessing it  *)
(* (kind 0: plain, 1: atomic, 2 and above: under the lock of that number)    *)
(* the threads that read and wrote it that way between two barriers.         *)
EXTENDS Integers, Sequences, FiniteSets
SetOf(s) == {s[i] : i \in DOMAIN s}
\* an access by thread t1 and one by thread t2, at least one of them a write, not ordered by anything
Conflict(pat) == \E a, b \in pat : \E t1 \in a.w : \E t2 \in b.w \cup b.r : t1 # t2 /\ (a.k # b.k \/ a.k = 0)
RaceFree(pats) == \A p \in pats : ~Conflict(p)
=============================================================================
