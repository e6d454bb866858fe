----------------------------- MODULE SpinLockAlg -----------------------------
(* The spin lock at the granularity of its atomic operations. Each goroutine  *)
(* runs Lock; critical section; Unlock for ever, and may also call Unlock     *)
(* when it does not hold the lock if Misuse is set.                           *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, Misuse, CanGiveUp
VARIABLES state, pc, owner
vars == <<state, pc, owner>>
Init == state = 0 /\ pc = [p \in Procs |-> "idle"] /\ owner = "none"
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
CallLock(p) == Go(p, "idle", "spin") /\ UNCHANGED <<state, owner>>
CasLock(p) == /\ pc[p] = "spin"
              /\ IF state = 0 THEN state' = 1 /\ owner' = p /\ pc' = [pc EXCEPT ![p] = "crit"]
                 ELSE UNCHANGED vars
\* giving up after the spin limit: nothing is taken from anybody
GiveUp(p) == CanGiveUp /\ Go(p, "spin", "idle") /\ state = 1 /\ UNCHANGED <<state, owner>>
CallUnlock(p) == Go(p, "crit", "rel") /\ UNCHANGED <<state, owner>>
CasUnlock(p) == /\ pc[p] = "rel"
                /\ IF state = 1 THEN state' = 0 /\ owner' = "none" /\ pc' = [pc EXCEPT ![p] = "idle"]
                   ELSE pc' = [pc EXCEPT ![p] = "panic"] /\ UNCHANGED <<state, owner>>
BadUnlock(p) == /\ Misuse /\ pc[p] = "idle" /\ state = 0 /\ UNCHANGED vars
Next == \E p \in Procs : CallLock(p) \/ CasLock(p) \/ GiveUp(p) \/ CallUnlock(p) \/ CasUnlock(p) \/ BadUnlock(p)
Spec == Init /\ [][Next]_vars
\* a fair scheduler; goroutines in Lock are strongly fair (they get a chance while the lock is free)
Fair == \A p \in Procs : SF_vars(CasLock(p) /\ pc'[p] = "crit") /\ WF_vars(CasUnlock(p)) /\ WF_vars(CallUnlock(p))
FairSpec == Spec /\ Fair
InCrit == {p \in Procs : pc[p] \in {"crit", "rel"}}
Mutex == Cardinality(InCrit) <= 1
Held == (state = 1) = (InCrit # {}) /\ (InCrit # {} => owner \in InCrit)
NoPanic == \A p \in Procs : pc[p] # "panic"
Progress == \A p \in Procs : pc[p] = "spin" ~> pc[p] = "crit"
=============================================================================
