------------------------------ MODULE NullHash ------------------------------
(* Null-hash objects: each has a 4-byte identity, unique in the process, that *)
(* is its digest for life.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE ids      \* ids[k]: identity of the k-th object made
IdSet == {ids[k] : k \in 1..Len(ids)}
Made(k, d) == k = Len(ids) + 1 /\ d \notin IdSet /\ ids' = Append(ids, d)
Digest(k, b, r) == r = b \o ids[k] /\ UNCHANGED ids
Write(n, r) == r = n /\ UNCHANGED ids
Reset == UNCHANGED ids
=============================================================================
