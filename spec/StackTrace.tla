----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, TraceKit
Obs(e) == /\ e.size = Len(s') /\ e.empty = (s' = <<>>)
          /\ e.to = (s' # <<>>) /\ (e.to => e.tv = s'[Len(s')])
Step(e) ==
  CASE e.op = "new"  -> Clear
    [] e.op = "init" -> Clear
    [] e.op = "cl"   -> Clear
    [] e.op = "push" -> e.ok /\ Push(e.a)
    [] e.op = "pop"  -> Pop(e.v, e.ok)
    [] e.op = "pushn" -> e.ok /\ PushAll([i \in 1..e.k |-> e.a + i - 1])
    [] e.op = "popn" -> PopMany(e.k, e.vs)
    [] e.op = "top"  -> Top(e.v, e.ok)
    [] OTHER -> FALSE
TraceInit == KitInit /\ s = <<>> /\ hist = <<>>
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ Obs(Ev) /\ UNCHANGED hist
             \/ KitDone /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, vars>>
=============================================================================
