----------------------------- MODULE DequeTrace -----------------------------
EXTENDS Deque, TraceKit

\* e.v/e.ok results, e.size/e.empty/e.cap/e.fo/e.fv/e.bo/e.bv observations after the call
Obs(e) == /\ e.size = Len(q') /\ e.empty = (q' = <<>>) /\ e.cap >= Len(q')
          /\ e.fo = (q' # <<>>) /\ (e.fo => e.fv = Front_(q'))
          /\ e.bo = (q' # <<>>) /\ (e.bo => e.bv = Back_(q'))

Step(e) ==
  CASE e.op = "new"   -> InitBuf(e.cap)
    [] e.op = "init"  -> InitBuf(e.cap)
    [] e.op = "pf"    -> e.ok /\ PushFront(e.a, e.cap)
    [] e.op = "pb"    -> e.ok /\ PushBack(e.a, e.cap)
    [] e.op = "xf"    -> PopFront(e.v, e.ok)
    [] e.op = "xb"    -> PopBack(e.v, e.ok)
    [] e.op = "pfn"   -> e.ok /\ PushAllFront([i \in 1..e.k |-> e.a + i - 1], e.cap)
    [] e.op = "pbn"   -> e.ok /\ PushAllBack([i \in 1..e.k |-> e.a + i - 1], e.cap)
    [] e.op = "xfn"   -> PopManyFront(e.k, e.vs)
    [] e.op = "xbn"   -> PopManyBack(e.k, e.vs)
    [] e.op = "front" -> Front(e.v, e.ok)
    [] e.op = "back"  -> Back(e.v, e.ok)
    [] e.op = "sh"    -> Shrink(e.ok, e.cap)
    [] e.op = "cl"    -> Clear(e.cap)
    [] OTHER -> FALSE

TraceInit == KitInit /\ q = <<>> /\ cap = 0
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ Obs(Ev)
             \/ KitDone /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, vars>>
=============================================================================
