--------------------------- MODULE HeapSlicesTrace ---------------------------
(* Each event is one call: slice before (a), after (r), results.              *)
EXTENDS HeapOrder, TraceKit
\* of a large slice the trace also says which element of a went where
Moved(s, t, perm) == /\ Len(s) = Len(t) /\ Len(perm) = Len(t) /\ {perm[i] : i \in 1..Len(t)} = 1..Len(s)
                     /\ \A i \in 1..Len(t) : t[i] = s[perm[i]]
Same_(s, t, e) == IF "perm" \in DOMAIN e THEN Moved(s, t, e.perm) ELSE SamePerm(s, t)
Step(e) ==
  CASE e.op = "make"  -> Same_(e.a, e.r, e) /\ IsHeap(e.m, e.r) /\ e.chk
    [] e.op = "check" -> e.ok = IsHeap(e.m, e.a) /\ e.r = e.a
    [] e.op = "push"  -> Same_(Append(e.a, e.v), e.r, e) /\ IsHeap(e.m, e.r) /\ e.chk
    [] e.op = "pop"   -> IF e.a = <<>> THEN ~e.ok /\ e.r = <<>>
                         ELSE /\ e.ok /\ IsTop(e.m, e.v, e.a) /\ Same_(e.a, Append(e.r, e.v), e)
                              /\ IsHeap(e.m, e.r) /\ e.chk
    [] e.op = "sort"  -> Same_(e.a, e.r, e) /\ Sorted(e.m, e.r) /\ e.b = e.r
    [] e.op = "rev"   -> e.r = Rev(e.a)
    [] OTHER -> FALSE
TraceInit == KitInit
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
