-------------------------------- MODULE MC_Omp --------------------------------
(* C21, design: threads that share the iterations of a loop, interleaved at   *)
(* the granularity of single reads and writes.  Iteration i adds its flux     *)
(* input[i] to the cells of Target(i):                                        *)
(*   "gather"  - only its own cell                                            *)
(*   "atomic"  - its own and its neighbour's, each by an atomic update        *)
(*   "scatter" - the same with plain reads and writes (broken)                *)
(*   "shared"  - its own cell, through a scratch location that all threads    *)
(*               share (broken); "private" - a scratch location per thread    *)
(*   "critical"- both cells in plain accesses inside one critical section     *)
(* Checked in every reachable state: the accesses made so far are free of     *)
(* races (QkOmp!Conflict, the operator that judges the real executions), and  *)
(* at the end every cell has its sequential value.                            *)
EXTENDS QkOmp, TLC
CONSTANTS NIter, NThr, Kinds
VARIABLES kind, owner, todo, pc, reg, mem, scr, lck, acc
vars == <<kind, owner, todo, pc, reg, mem, scr, lck, acc>>
Iters == 1..NIter
Thr == 1..NThr
Flux(i) == 2 ^ i
\* the locations an iteration updates, in order, with the sign
Upd(i) == IF kind \in {"gather", "shared", "private"} THEN << <<i, 1>> >> ELSE << <<i - 1, -1>>, <<i, 1>> >>
SeqVal(c) == LET plus == IF c \in Iters THEN Flux(c) ELSE 0
                 minus == IF c + 1 \in Iters /\ Len(Upd(c + 1)) = 2 THEN Flux(c + 1) ELSE 0 IN plus - minus
Idle == <<"idle", 0, 0>>
Sloc(t) == IF kind = "shared" THEN 0 ELSE t
Touch(loc, t, k, w) == acc' = [acc EXCEPT ![loc] = @ \cup {<<k, t, w>>}]
Locs == ({"c"} \X (0..NIter)) \cup ({"s"} \X (0..NThr))
Init == /\ kind \in Kinds
        /\ owner \in [Iters -> Thr]              \* any distribution of the iterations
        /\ todo = Iters /\ pc = [t \in Thr |-> Idle] /\ reg = [t \in Thr |-> 0]
        /\ mem = [c \in 0..NIter |-> 0] /\ scr = [t \in 0..NThr |-> 0] /\ lck = 0
        /\ acc = [x \in Locs |-> {}]
Plain == IF kind = "critical" THEN 2 ELSE 0
Take(t) == \E i \in todo :
             /\ pc[t] = Idle /\ owner[i] = t /\ (kind = "critical" => lck = 0)
             /\ todo' = todo \ {i} /\ pc' = [pc EXCEPT ![t] = <<"scr", i, 1>>]
             /\ lck' = IF kind = "critical" THEN t ELSE lck
             /\ UNCHANGED <<kind, owner, reg, mem, scr, acc>>
Scratch(t) == /\ pc[t][1] = "scr"
              /\ IF kind \in {"shared", "private"}
                 THEN scr' = [scr EXCEPT ![Sloc(t)] = Flux(pc[t][2])] /\ Touch(<<"s", Sloc(t)>>, t, 0, TRUE) /\ pc' = [pc EXCEPT ![t][1] = "use"]
                 ELSE UNCHANGED <<scr, acc>> /\ pc' = [pc EXCEPT ![t][1] = "load"]
              /\ UNCHANGED <<kind, owner, todo, reg, mem, lck>>
Use(t) == /\ pc[t][1] = "use"
          /\ reg' = [reg EXCEPT ![t] = scr[Sloc(t)]] /\ Touch(<<"s", Sloc(t)>>, t, 0, FALSE)
          /\ pc' = [pc EXCEPT ![t][1] = "load"] /\ UNCHANGED <<kind, owner, todo, mem, scr, lck>>
Val(t) == IF kind \in {"shared", "private"} THEN reg[t] ELSE Flux(pc[t][2])
After(t) == IF pc[t][3] < Len(Upd(pc[t][2])) THEN <<"load", pc[t][2], pc[t][3] + 1>> ELSE Idle
Load(t) == /\ pc[t][1] = "load"
           /\ LET u == Upd(pc[t][2])[pc[t][3]] IN
              IF kind = "atomic"
              THEN /\ mem' = [mem EXCEPT ![u[1]] = @ + u[2] * Val(t)] /\ Touch(<<"c", u[1]>>, t, 1, TRUE)
                   /\ pc' = [pc EXCEPT ![t] = After(t)] /\ UNCHANGED reg
              ELSE /\ reg' = [reg EXCEPT ![t] = mem[u[1]] + u[2] * Val(t)] /\ Touch(<<"c", u[1]>>, t, Plain, FALSE)
                   /\ pc' = [pc EXCEPT ![t][1] = "store"] /\ UNCHANGED mem
           /\ UNCHANGED <<kind, owner, todo, scr, lck>>
Store(t) == /\ pc[t][1] = "store"
            /\ LET u == Upd(pc[t][2])[pc[t][3]] IN mem' = [mem EXCEPT ![u[1]] = reg[t]] /\ Touch(<<"c", u[1]>>, t, Plain, TRUE)
            /\ pc' = [pc EXCEPT ![t] = After(t)] /\ lck' = IF After(t) = Idle /\ kind = "critical" THEN 0 ELSE lck
            /\ UNCHANGED <<kind, owner, todo, reg, scr>>
Next == \E t \in Thr : Take(t) \/ Scratch(t) \/ Use(t) \/ Load(t) \/ Store(t)
PatOf(loc) == {[k |-> k, r |-> {a[2] : a \in {x \in acc[loc] : x[1] = k /\ ~x[3]}}, w |-> {a[2] : a \in {x \in acc[loc] : x[1] = k /\ x[3]}}] : k \in {a[1] : a \in acc[loc]}}
NoRace == RaceFree({PatOf(x) : x \in Locs})
Done == todo = {} /\ \A t \in Thr : pc[t] = Idle
Sequential == Done => \A c \in 0..NIter : mem[c] = SeqVal(c)
\* what the criterion is worth: a finished execution without conflicting accesses has the sequential result
Sound == (Done /\ NoRace) => \A c \in 0..NIter : mem[c] = SeqVal(c)
=============================================================================
