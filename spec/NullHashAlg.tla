---------------------------- MODULE NullHashAlg ----------------------------
(* The id counter under concurrent creations: one atomic increment-and-fetch  *)
(* per creation (Atomic), or an increment and a read as separate steps, for   *)
(* which uniqueness fails.                                                    *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, PerProc, Atomic
VARIABLES n, pc, tmp, left, got
vars == <<n, pc, tmp, left, got>>
Init == n = 0 /\ pc = [p \in Procs |-> 0] /\ tmp = [p \in Procs |-> 0] /\ left = [p \in Procs |-> PerProc] /\ got = {}
Add(p) == /\ Atomic /\ left[p] > 0 /\ n' = n + 1 /\ got' = got \cup {<<p, left[p], n + 1>>}
          /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<pc, tmp>>
Rd(p) == ~Atomic /\ left[p] > 0 /\ pc[p] = 0 /\ tmp' = [tmp EXCEPT ![p] = n] /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<n, left, got>>
Wr(p) == ~Atomic /\ pc[p] = 1 /\ n' = tmp[p] + 1 /\ pc' = [pc EXCEPT ![p] = 2] /\ UNCHANGED <<tmp, left, got>>
Use(p) == /\ ~Atomic /\ pc[p] = 2 /\ got' = got \cup {<<p, left[p], n>>} /\ pc' = [pc EXCEPT ![p] = 0]
          /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<n, tmp>>
Next == \E p \in Procs : Add(p) \/ Rd(p) \/ Wr(p) \/ Use(p)
Spec == Init /\ [][Next]_vars
Unique == \A a, b \in got : a[3] = b[3] => a = b
=============================================================================
