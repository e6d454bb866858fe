---------------------------- MODULE NullHashTrace ----------------------------
EXTENDS NullHash, TraceKit
VARIABLES left, top      \* mass creation: digests still to come, largest digest so far
Less4(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Rising(ds) == /\ top = <<>> \/ Less4(top, ds[1])
              /\ \A i \in 1..(Len(ds) - 1) : Less4(ds[i], ds[i + 1])
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
Step(e) ==
  CASE e.op = "made"  -> Made(e.k, e.d) /\ Len(e.d) = 4 /\ UNCHANGED <<left, top>>
    [] e.op = "sum"   -> Digest(e.k, e.b, e.r) /\ UNCHANGED <<left, top>>
    [] e.op = "write" -> Write(e.n, e.r) /\ ~e.err /\ UNCHANGED <<left, top>>
    [] e.op = "reset" -> Reset /\ UNCHANGED <<left, top>>
    \* a mass creation of e.n objects, whose digests follow sorted, in chunks: they must all differ
    [] e.op = "many"    -> left' = e.n /\ top' = <<>> /\ UNCHANGED ids
    [] e.op = "chunk"   -> /\ Rising(e.ds) = TRUE
                           /\ left' = left - Len(e.ds) /\ top' = e.ds[Len(e.ds)] /\ UNCHANGED ids
    [] e.op = "endmany" -> left = 0 /\ UNCHANGED <<ids, left, top>>
    \* more than can be listed: the number of different digests by first byte
    [] e.op = "huge"    -> e.odd = 0 /\ SumOf(e.counts) = e.n /\ UNCHANGED <<ids, left, top>>
    [] OTHER -> FALSE
TraceInit == KitInit /\ ids = <<>> /\ left = 0 /\ top = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED <<ids, left, top>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, ids, left, top>>
=============================================================================
