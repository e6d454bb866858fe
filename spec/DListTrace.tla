----------------------------- MODULE DListTrace -----------------------------
EXTENDS DList, TraceKit
\* after every call: both lists walked by links (f, b), by visitor (vf, vb), emptiness, the set of valid nodes,
\* detached: removed node has no neighbours
Obs(e) == \A i \in L :
   /\ e.f[i] = seq'[i] /\ e.b[i] = RevSeq(seq'[i])
   /\ e.vf[i] = seq'[i] /\ e.vb[i] = RevSeq(seq'[i])
   /\ e.em[i] = (seq'[i] = <<>>)
   /\ e.val[i] = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
   /\ Len(e.ok_[i]) = Len(seq'[i]) /\ Range_(e.ok_[i]) = Range_(seq'[i])
\* a list of n nodes holding 0..n-1 each pushed at the front, then: reversed; node n/2 removed; node n-1 moved to
\* the front; node 0 moved behind n-2; a list of n more put before it; its first popped and n/2 back in behind 1;
\* rotated forward; rotated back and n-1 moved to the back; the last popped and n/2 moved before 1
BigStages(n) ==
  LET s1 == [i \in 1..n |-> n - i]
      s2 == [i \in 1..n |-> i - 1]
      h  == n \div 2
      s3 == [i \in 1..(n - 1) |-> IF i <= h THEN i - 1 ELSE i]
      s4 == <<n - 1>> \o SubSeq(s3, 1, n - 2)
      s5 == <<n - 1>> \o SubSeq(s4, 3, n - 1) \o <<0>>
      s6 == [i \in 1..n |-> (2 * n) - i] \o s5
      s7 == Tail(SubSeq(s6, 1, n + 2)) \o <<h>> \o SubSeq(s6, n + 3, Len(s6))
      z  == Len(s7)
      s8 == RotF(s7)
      s9 == [i \in 1..z |-> IF i < n THEN s7[i] ELSE IF i < z THEN s7[i + 1] ELSE n - 1]
      s10 == SubSeq(s9, 1, n - 1) \o <<h, 1>> \o SubSeq(s9, n + 2, z - 1)
  IN <<s1, s2, s3, s4, s5, s6, s7, s8, s9, s10>>
BigOK(e) == LET w == BigStages(e.n) IN
  /\ Len(e.looks) = Len(w)
  /\ \A k \in 1..Len(w) :
       LET x == e.looks[k] y == OfRuns(x.f) IN
       /\ y = w[k] /\ OfRuns(x.v) = y /\ OfRuns(x.b) = RevSeq(y) /\ OfRuns(x.w) = RevSeq(y)
       /\ x.ok = <<TRUE, k # 10, k \in {1, 2} \/ k >= 7, FALSE>>
Step(e) ==
  CASE e.op = "newNode"    -> NewNode(e.v, e.r)
    [] e.op = "pushFront"  -> PushFront(e.i, e.v, e.r)
    [] e.op = "pushBack"   -> PushBack(e.i, e.v, e.r)
    [] e.op = "pushMany"   -> PushMany(e.i, e.k, e.v, e.w, e.r)
    [] e.op = "insFront"   -> InsertFront(e.i, e.n, e.r)
    [] e.op = "insBack"    -> InsertBack(e.i, e.n, e.r)
    [] e.op = "pushBefore" -> PushBefore(e.i, e.v, e.m, e.r)
    [] e.op = "pushAfter"  -> PushAfter(e.i, e.v, e.m, e.r)
    [] e.op = "insBefore"  -> InsertBefore(e.i, e.n, e.m, e.r)
    [] e.op = "insAfter"   -> InsertAfter(e.i, e.n, e.m, e.r)
    [] e.op = "remove"     -> Remove(e.i, e.n, e.r) /\ e.det
    [] e.op = "removeFront" -> RemoveFront(e.i, e.r) /\ e.det
    [] e.op = "removeBack" -> RemoveBack(e.i, e.r) /\ e.det
    [] e.op = "popFront"   -> PopFront(e.i, e.v, e.ok)
    [] e.op = "popBack"    -> PopBack(e.i, e.v, e.ok)
    [] e.op = "insFrontList" -> InsertFrontList(e.i, e.ok)
    [] e.op = "insBackList"  -> InsertBackList(e.i, e.ok)
    [] e.op = "moveFront"  -> MoveFront(e.i, e.n, e.r)
    [] e.op = "moveBack"   -> MoveBack(e.i, e.n, e.r)
    [] e.op = "moveBefore" -> MoveBefore(e.i, e.n, e.m, e.r)
    [] e.op = "moveAfter"  -> MoveAfter(e.i, e.n, e.m, e.r)
    [] e.op = "rotF"       -> RotateForward(e.i)
    [] e.op = "rotB"       -> RotateBackward(e.i)
    [] e.op = "reverse"    -> Reverse(e.i)
    [] e.op = "clear"      -> Clear(e.i)
    [] e.op = "set"        -> NodeSet(e.n, e.v, e.old)
    [] e.op = "reach"      -> Reachable(e.i, e.n, e.m, e.ok)
    [] e.op = "visit"      -> Visit(e.i, e.dirs, e.r)
    [] OTHER -> FALSE
TraceInit == KitInit /\ ListInit
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ (IF Ev.op = "big" THEN (BigOK(Ev) = TRUE) /\ UNCHANGED lvars ELSE Step(Ev) /\ Obs(Ev))
             \/ KitDone /\ UNCHANGED lvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, lvars>>
=============================================================================
