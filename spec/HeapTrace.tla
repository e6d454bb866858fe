----------------------------- MODULE HeapTrace -----------------------------
EXTENDS PrioBag, TraceKit
Obs(e) == /\ e.size = Len(bag') /\ e.empty = (bag' = <<>>)
          /\ Len(e.buf) = e.size /\ IsHeap(mt', e.buf) /\ Asc(e.buf) = bag'
          /\ e.to = (bag' # <<>>) /\ (e.to => e.tv = Best')
Step(e) ==
  CASE e.op = "new"  -> Setup(e.m, e.n)
    [] e.op = "init" -> Setup(e.m, e.n)
    [] e.op = "push" -> Push(e.a)
    [] e.op = "pop"  -> Pop(e.v, e.ok)
    [] e.op = "pushn" -> PushAll(e.vs)
    [] e.op = "popn" -> PopMany(e.k, e.vs)
    [] OTHER -> FALSE
TraceInit == KitInit /\ bag = <<>> /\ mt = FALSE /\ limit = 0
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ Obs(Ev)
             \/ KitDone /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, vars>>
=============================================================================
