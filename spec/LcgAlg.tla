------------------------------- MODULE LcgAlg -------------------------------
(* Concurrent draws: load the state, compute the next, publish it with a      *)
(* compare-and-swap (Cas) and retry on failure; or publish it blindly, for    *)
(* which two draws can be the same step. Seeds are abstract steps 0,1,2,...;  *)
(* one process may also swap in a new seed (100).                             *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, PerProc, Cas, Swapper
VARIABLES seed, pc, old, left, got, swapped
vars == <<seed, pc, old, left, got, swapped>>
Init == /\ seed = 0 /\ pc = [p \in Procs |-> "idle"] /\ old = [p \in Procs |-> 0]
        /\ left = [p \in Procs |-> PerProc] /\ got = <<>> /\ swapped = FALSE
Load(p) == /\ pc[p] = "idle" /\ left[p] > 0
           /\ old' = [old EXCEPT ![p] = seed] /\ pc' = [pc EXCEPT ![p] = "put"]
           /\ UNCHANGED <<seed, left, got, swapped>>
Put(p) == /\ pc[p] = "put" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ IF ~Cas \/ seed = old[p]
             THEN /\ seed' = old[p] + 1 /\ got' = Append(got, old[p] + 1)
                  /\ left' = [left EXCEPT ![p] = @ - 1]
             ELSE UNCHANGED <<seed, got, left>>
          /\ UNCHANGED <<old, swapped>>
Swap == Swapper /\ ~swapped /\ swapped' = TRUE /\ got' = Append(got, -seed) /\ seed' = 100 /\ UNCHANGED <<pc, old, left>>
Next == (\E p \in Procs : Load(p) \/ Put(p)) \/ Swap
Spec == Init /\ [][Next]_vars
\* the results in publication order are the sequence of steps
State[k \in 0..Len(got)] == IF k = 0 THEN 0 ELSE IF got[k] <= 0 THEN 100 ELSE got[k]
InOrder == \A k \in 1..Len(got) : IF got[k] <= 0 THEN got[k] = -State[k - 1] ELSE got[k] = State[k - 1] + 1
=============================================================================
