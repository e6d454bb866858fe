------------------------------ MODULE RWLockAlg ------------------------------
(* The reader/writer spin lock at the granularity of its atomic operations:   *)
(* w (writers' spin lock), rc (readers inside, minus MaxR while a writer has  *)
(* announced itself), wr (a writer holds). Wrong releases are included.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, MaxR, Misuse, CanGiveUp
VARIABLES w, rc, wr, pc
vars == <<w, rc, wr, pc>>
Init == w = 0 /\ rc = 0 /\ wr = 0 /\ pc = [p \in Procs |-> "idle"]
To(p, b) == pc' = [pc EXCEPT ![p] = b]
At(p, a) == pc[p] = a
\* Lock
WCall(p)  == At(p, "idle") /\ To(p, "w1") /\ UNCHANGED <<w, rc, wr>>
WTake(p)  == At(p, "w1") /\ w = 0 /\ w' = 1 /\ To(p, "w2") /\ UNCHANGED <<rc, wr>>
WSay(p)   == At(p, "w2") /\ rc' = rc - MaxR /\ To(p, "w3") /\ UNCHANGED <<w, wr>>
WWait(p)  == At(p, "w3") /\ rc = -MaxR /\ To(p, "w4") /\ UNCHANGED <<w, rc, wr>>
WGive(p)  == CanGiveUp /\ At(p, "w3") /\ rc # -MaxR /\ rc' = rc + MaxR /\ To(p, "w3u") /\ UNCHANGED <<w, wr>>
WGive2(p) == At(p, "w3u") /\ w' = 0 /\ To(p, "idle") /\ UNCHANGED <<rc, wr>>
WHold(p)  == At(p, "w4") /\ wr' = 1 /\ To(p, "wcrit") /\ UNCHANGED <<w, rc>>
\* Unlock
UCas(p)   == At(p, "wcrit") /\ (IF wr = 1 THEN wr' = 0 /\ To(p, "u2") ELSE wr' = wr /\ To(p, "panic")) /\ UNCHANGED <<w, rc>>
UAdd(p)   == At(p, "u2") /\ rc' = rc + MaxR /\ To(p, "u3") /\ UNCHANGED <<w, wr>>
UFree(p)  == At(p, "u3") /\ w' = 0 /\ To(p, "idle") /\ UNCHANGED <<rc, wr>>
\* RLock: load, then compare-and-swap (a failing one goes back); RUnlock likewise
RCall(p)  == At(p, "idle") /\ To(p, "r1") /\ UNCHANGED <<w, rc, wr>>
REnter(p) == At(p, "r1") /\ rc >= 0 /\ rc' = rc + 1 /\ To(p, "rcrit") /\ UNCHANGED <<w, wr>>
RLeave(p) == At(p, "rcrit") /\ (IF rc = 0 \/ rc = -MaxR THEN rc' = rc /\ To(p, "panic")
                                ELSE rc' = rc - 1 /\ To(p, "idle")) /\ UNCHANGED <<w, wr>>
\* releases without holding: refused, nothing changes
BadU(p)   == Misuse /\ At(p, "idle") /\ wr = 0 /\ UNCHANGED vars
BadRU(p)  == Misuse /\ At(p, "idle") /\ (rc = 0 \/ rc = -MaxR) /\ UNCHANGED vars
Next == \E p \in Procs : \/ WCall(p) \/ WTake(p) \/ WSay(p) \/ WWait(p) \/ WGive(p) \/ WGive2(p) \/ WHold(p)
                         \/ UCas(p) \/ UAdd(p) \/ UFree(p) \/ RCall(p) \/ REnter(p) \/ RLeave(p) \/ BadU(p) \/ BadRU(p)
Spec == Init /\ [][Next]_vars
Writers == {p \in Procs : pc[p] = "wcrit"}
Readers == {p \in Procs : pc[p] = "rcrit"}
Excl == Cardinality(Writers) <= 1 /\ (Writers # {} => Readers = {})
NoPanic == \A p \in Procs : pc[p] # "panic"
Announced == {p \in Procs : pc[p] \in {"w3", "w4", "wcrit", "u2"}}
Count == rc = Cardinality(Readers) - (IF Announced # {} THEN MaxR ELSE 0)
WOwner == w = Cardinality({p \in Procs : pc[p] \in {"w2", "w3", "w3u", "w4", "wcrit", "u2", "u3"}})
Free == \A p \in Procs : pc[p] \in {"idle", "w1", "r1"}
NoLoss == Free => (w = 0 /\ rc = 0 /\ wr = 0)
\* with fair goroutines and no giving up, writers that wait get in
Steps(p) == WSay(p) \/ WWait(p) \/ WHold(p) \/ UCas(p) \/ UAdd(p) \/ UFree(p) \/ RLeave(p)
Fair == \A p \in Procs : WF_vars(Steps(p)) /\ SF_vars(WTake(p)) /\ SF_vars(REnter(p))
FairSpec == Spec /\ Fair
WriterIn == \A p \in Procs : pc[p] = "w1" ~> pc[p] = "wcrit"
ReaderIn == \A p \in Procs : pc[p] = "r1" ~> pc[p] \in {"rcrit"}
=============================================================================
