------------------------------ MODULE TreeTrace ------------------------------
EXTENDS Tree, TraceKit
Vals(s) == [i \in 1..Len(s) |-> val'[s[i]]]
\* kids via Children(); gets via GetChild(-1), GetChild(0) ...; all of one node
Obs(e) == /\ Len(e.kids) = Len(kids')
          /\ \A n \in 1..Len(kids') : /\ e.kids[n] = kids'[n] /\ e.num[n] = Len(kids'[n])
                                      /\ e.gets[n] = <<0>> \o kids'[n] \o <<0>>
          /\ e.all = Vals(PreIn(kids', e.of))
\* a whole tree built at once: par[k] is the parent of node k, each added as last child
Build(par, vs) == /\ kids' = [n \in 1..Len(par) |-> SelectSeq([k \in 1..Len(par) |-> k], LAMBDA k : par[k] = n)]
                  /\ val' = vs
\* a root of n children holding 0 .. 1000, 0 .. and a child (499) below the middle and the last; then the last but
\* one removed; 7 added in the middle; the first removed and 9 added at the end. (Kept apart: values of the children, which have a child.)
RemoveIdx_(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt_(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
BigStages(n) ==
  LET k1 == [i \in 1..n |-> (i - 1) % 1001]
      c1 == [i \in 1..n |-> IF i = (n \div 2) + 1 \/ i = n THEN 1 ELSE 0]
      h  == n \div 2
      k2 == RemoveIdx_(k1, n - 1)   c2 == RemoveIdx_(c1, n - 1)
      k3 == InsertAt_(k2, h + 1, 7) c3 == InsertAt_(c2, h + 1, 0)
      k4 == Append(Tail(k3), 9)     c4 == Append(Tail(c3), 0)
  IN <<<<k1, c1>>, <<k2, c2>>, <<k3, c3>>, <<k4, c4>>>>
\* the values in pre-order: the children with their grandchildren put in behind them
RECURSIVE Spread(_, _)
Spread(k, c) == LET w == {i \in 1..Len(k) : c[i] = 1} IN
  IF w = {} THEN k
  ELSE LET i == CHOOSE x \in w : \A y \in w : x >= y
       IN Spread(SubSeq(k, 1, i), [c EXCEPT ![i] = 0]) \o <<499>> \o SubSeq(k, i + 1, Len(k))
BigOK(e) == LET w == BigStages(e.n) IN
  /\ Len(e.looks) = Len(w)
  /\ \A j \in 1..Len(w) :
       LET k == w[j][1]
           x == e.looks[j]
           pre == <<e.root>> \o Spread(k, w[j][2])
           at(i) == IF i >= 0 /\ i < Len(k) THEN k[i + 1] ELSE -1
       IN /\ OfRuns(x.n) = pre /\ OfRuns(x.all) = pre /\ OfRuns(x.p) = [i \in 1..Len(pre) |-> pre[Len(pre) + 1 - i]]
          /\ x.num = Len(k)
          /\ x.get = <<at(0), at(e.n \div 2), at(e.n - 1), at(e.n), at(0 - 1), at(e.n \div 3)>>
Step(e) ==
  CASE e.op = "build"  -> Build(e.par, e.vs)
    [] e.op = "add"    -> AddChild(e.n, e.v, e.i, e.r)
    [] e.op = "attach" -> AddChildNode(e.n, e.c, e.i, e.r)
    [] e.op = "remove" -> RemoveChild(e.n, e.i, e.r, e.ok)
    [] e.op = "sort"   -> SortChildren(e.n, e.kids[e.n])
    [] OTHER -> FALSE
TraceInit == KitInit /\ TreeInit /\ hist = <<>>
TraceNext == \/ /\ KitNext /\ NoPanic(Ev) /\ UNCHANGED hist
                /\ IF Ev.op = "big" THEN (BigOK(Ev) = TRUE) /\ UNCHANGED tvars ELSE
                   IF Ev.op = "visit" THEN Ev.r = VWalk(PreOrder(Ev.n), 0, Ev.dirs) /\ Ev.r2 = VWalk(PreOrder(Ev.n2), 0, Ev.dirs2) /\ UNCHANGED tvars
                   ELSE Step(Ev) /\ Obs(Ev)
             \/ KitDone /\ UNCHANGED <<tvars, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, tvars, hist>>
=============================================================================
