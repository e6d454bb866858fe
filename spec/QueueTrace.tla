----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, TraceKit
Obs(e) == /\ e.size = Len(q') /\ e.empty = (q' = <<>>) /\ e.cap >= Len(q')
          /\ e.fo = (q' # <<>>) /\ (e.fo => e.fv = q'[1])
          /\ e.bo = (q' # <<>>) /\ (e.bo => e.bv = q'[Len(q')])
Step(e) ==
  CASE e.op = "new"   -> InitBuf(e.cap)
    [] e.op = "init"  -> InitBuf(e.cap)
    [] e.op = "pb"    -> e.ok /\ Push(e.a, e.cap)
    [] e.op = "xf"    -> Pop(e.v, e.ok)
    [] e.op = "pbn"   -> e.ok /\ PushAll([i \in 1..e.k |-> e.a + i - 1], e.cap)
    [] e.op = "xfn"   -> PopMany(e.k, e.vs)
    [] e.op = "front" -> Front(e.v, e.ok)
    [] e.op = "back"  -> Back(e.v, e.ok)
    [] e.op = "sh"    -> Shrink(e.ok, e.cap)
    [] e.op = "cl"    -> Clear(e.cap)
    [] OTHER -> FALSE
TraceInit == KitInit /\ q = <<>> /\ cap = 0
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ Obs(Ev)
             \/ KitDone /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, vars>>
=============================================================================
