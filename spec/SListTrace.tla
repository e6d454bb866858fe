----------------------------- MODULE SListTrace -----------------------------
EXTENDS SList, TraceKit
Obs(e) == \A i \in L :
   /\ e.f[i] = seq'[i] /\ e.vf[i] = seq'[i]
   /\ e.em[i] = (seq'[i] = <<>>) /\ e.len[i] = Len(seq'[i])
   /\ e.val[i] = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
   /\ Len(e.ok_[i]) = Len(seq'[i]) /\ Range_(e.ok_[i]) = Range_(seq'[i])
   /\ ~e.cyc[i]
\* a list of n nodes holding 0..n-1 each pushed at the front, then: reversed; node n/2 removed; node n-1 moved to
\* the front; node 0 moved behind n-2; a list of n more put before it; its first popped and n/2 back in behind 1
BigStages(n) ==
  LET s1 == [i \in 1..n |-> n - i]
      s2 == [i \in 1..n |-> i - 1]
      h  == n \div 2
      s3 == [i \in 1..(n - 1) |-> IF i <= h THEN i - 1 ELSE i]
      s4 == <<n - 1>> \o SubSeq(s3, 1, n - 2)
      s5 == <<n - 1>> \o SubSeq(s4, 3, n - 1) \o <<0>>
      s6 == [i \in 1..n |-> (2 * n) - i] \o s5
      s7 == Tail(SubSeq(s6, 1, n + 2)) \o <<h>> \o SubSeq(s6, n + 3, Len(s6))
  IN <<s1, s2, s3, s4, s5, s6, s7>>
BigOK(e) == LET w == BigStages(e.n) IN
  /\ Len(e.looks) = Len(w)
  /\ \A k \in 1..Len(w) :
       /\ OfRuns(e.looks[k].f) = w[k] /\ OfRuns(e.looks[k].v) = w[k]
       /\ e.looks[k].len = Len(w[k]) /\ e.looks[k].t = Len(w[k])
       /\ e.looks[k].ok = <<TRUE, TRUE, k \in {1, 2, 7}, FALSE, FALSE>>
Step(e) ==
  CASE e.op = "newNode"    -> NewNode(e.v, e.r)
    [] e.op = "pushFront"  -> PushFront(e.i, e.v, e.r)
    [] e.op = "pushMany"   -> PushMany(e.i, e.k, e.v, e.r)
    [] e.op = "insFront"   -> InsertFront(e.i, e.n, e.r)
    [] e.op = "pushAfter"  -> PushAfter(e.i, e.v, e.m, e.r)
    [] e.op = "insAfter"   -> InsertAfter(e.i, e.n, e.m, e.r)
    [] e.op = "remove"     -> Remove(e.i, e.n, e.r) /\ e.det
    [] e.op = "removeFront" -> RemoveFront(e.i, e.r) /\ e.det
    [] e.op = "popFront"   -> PopFront(e.i, e.v, e.ok)
    [] e.op = "pushFrontList" -> PushFrontList(e.i)
    [] e.op = "moveFront"  -> MoveFront(e.i, e.n, e.r)
    [] e.op = "moveAfter"  -> MoveAfter(e.i, e.n, e.m, e.r)
    [] e.op = "reverse"    -> Reverse(e.i)
    [] e.op = "clear"      -> Clear(e.i)
    [] e.op = "set"        -> NodeSet(e.n, e.v, e.old)
    [] e.op = "reach"      -> Reachable(e.i, e.n, e.m, e.ok)
    [] e.op = "tail"       -> TailOf(e.i, e.n, e.t, e.size)
    \* a separately built chain of k nodes closed into a ring behind m more nodes (k = 0: not closed)
    [] e.op = "cycle"      -> (\A i \in 1..Len(e.oks) : e.oks[i] = (e.k > 0)) /\ Same
    [] OTHER -> FALSE
TraceInit == KitInit /\ ListInit /\ hist = <<>>
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ (IF Ev.op = "big" THEN (BigOK(Ev) = TRUE) /\ Same ELSE Step(Ev) /\ Obs(Ev)) /\ UNCHANGED hist
             \/ KitDone /\ UNCHANGED <<lvars, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, lvars, hist>>
=============================================================================
