--------------------------- MODULE SortSliceTrace ---------------------------
EXTENDS SortSlice, TraceKit
Obs(e) == e.d = d' /\ e.len = Len(d')
Step(e) ==
  CASE e.op \in {"new", "init"} -> NoPanic(e) /\ Init0
    [] e.op = "push" -> NoPanic(e) /\ Push(e.v, e.n)
    [] e.op = "pushn" -> NoPanic(e) /\ PushAll(e.vs, e.n)
    [] e.op = "ins"  -> NoPanic(e) /\ Insert(e.v, e.i, e.n)
    [] e.op = "rem"  -> NoPanic(e) /\ Remove(e.i, e.v, e.ok)
    [] e.op = "pop"  -> NoPanic(e) /\ Pop(e.v, e.ok)
    [] e.op = "get"  -> NoPanic(e) /\ Get(e.i, e.v, e.ok)
    [] e.op = "must" -> MustGet(e.i, e.v, ~NoPanic(e))
    [] e.op = "swap" -> NoPanic(e) /\ Swap(e.i, e.j)
    [] e.op = "less" -> NoPanic(e) /\ Less(e.i, e.j, e.r)
    [] e.op = "sort" -> NoPanic(e) /\ Sort(e.d)
    [] OTHER -> FALSE
TraceInit == KitInit /\ d = <<>> /\ hist = <<>>
TraceNext == \/ KitNext /\ Step(Ev) /\ Obs(Ev) /\ UNCHANGED hist
             \/ KitDone /\ UNCHANGED <<d, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, d, hist>>
=============================================================================
