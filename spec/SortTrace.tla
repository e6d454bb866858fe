------------------------------ MODULE SortTrace ------------------------------
EXTENDS SortedList, TraceKit
\* f/b: nodes walked forward (and backward, doubly linked only); val: their values
Obs(e) == /\ e.f = seq' /\ (e.k = "d" => e.b = RevSeq(seq')) /\ e.vf = seq'
          /\ e.em = (seq' = <<>>)
          /\ e.val = [k \in 1..Len(seq') |-> val'[seq'[k]]]
Step(e) ==
  CASE e.op = "fill" -> NoPanic(e) /\ Fill(e.vs) /\ Obs(e)
    [] e.op = "sort" -> NoPanic(e) /\ Sort(e.perm) /\ Obs(e)
    [] e.op = "push" -> NoPanic(e) /\ Push(e.v) /\ Obs(e)
    [] e.op = "pop"  -> NoPanic(e) /\ Pop(e.v, e.ok) /\ Obs(e)
    [] e.op = "rev"  -> NoPanic(e) /\ Reverse /\ Obs(e)
    [] e.op = "set"  -> NoPanic(e) /\ SetVal(e.n, e.v) /\ Obs(e)
    \* comparator: how it was made (by name, by bool "bigFirst", by method, zero value), result of F(x, y)
    [] e.op = "cmp"  -> /\ UNCHANGED slvars
                        /\ IF e.how = "name" /\ ~Known(e.name) THEN ~NoPanic(e)
                           ELSE NoPanic(e) /\ e.r = Holds(e.name, e.x, e.y)
                                /\ e.s = (IF e.name = "Greater" THEN "Greater" ELSE "Lesser")
    [] OTHER -> FALSE
TraceInit == KitInit /\ SInit
TraceNext == \/ KitNext /\ Step(Ev)
             \/ KitDone /\ UNCHANGED slvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, slvars>>
=============================================================================
