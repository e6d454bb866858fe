------------------------------ MODULE PtrList ------------------------------
(* The implementation's circular doubly linked list: next/prev pointers and a *)
(* head per list, each operation as its pointer updates. Refines DList.       *)
EXTENDS SeqOps
CONSTANTS MaxNodes
VARIABLES nxt, prv, head, na, lost
vars == <<nxt, prv, head, na, lost>>
N == 1..MaxNodes
L == 1..2

RECURSIVE WalkF(_, _, _)
WalkF(h, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o (IF nxt[n] = h THEN <<>> ELSE WalkF(h, nxt[n], k - 1))
SeqOf(i) == WalkF(head[i], head[i], MaxNodes + 2)
RECURSIVE WalkB(_, _, _)
WalkB(h, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o (IF prv[n] = h THEN <<>> ELSE WalkB(h, prv[n], k - 1))
BackSeqOf(i) == IF head[i] = 0 THEN <<>> ELSE WalkB(prv[head[i]], prv[head[i]], MaxNodes + 2)

D == INSTANCE DList WITH seq <- <<SeqOf(1), SeqOf(2)>>, val <- [n \in 1..na |-> n], lost <- lost

\* heap = [n |-> nxt, p |-> prv, h |-> head]: operations as functions, so that they compose as in the code
H == [n |-> nxt, p |-> prv, h |-> head]
W(g, x, y) == [g EXCEPT !.n[x] = y]
WP(g, x, y) == [g EXCEPT !.p[x] = y]
RotB(g, i) == IF g.h[i] = 0 THEN g ELSE [g EXCEPT !.h[i] = g.p[g.h[i]]]
RotF(g, i) == IF g.h[i] = 0 THEN g ELSE [g EXCEPT !.h[i] = g.n[g.h[i]]]
InsBack(g, i, x) ==
  IF g.h[i] = 0 THEN WP(W([g EXCEPT !.h[i] = x], x, x), x, x)
  ELSE LET hd == g.h[i] bk == g.p[hd] IN WP(W(WP(W(g, x, hd), x, bk), bk, x), hd, x)
InsFront(g, i, x) == RotB(InsBack(g, i, x), i)
InsBefore(g, i, x, m) ==
  LET pm == g.p[m]
      g1 == WP(W(WP(W(g, x, m), x, pm), pm, x), m, x)
  IN IF g.h[i] = m THEN RotB(g1, i) ELSE g1
InsAfter(g, i, x, m) == LET nm == g.n[m] g1 == WP(W(g, x, nm), x, m) g2 == WP(g1, nm, x) IN W(g2, m, x)
Rem(g, i, x) ==
  LET h1 == IF g.n[x] = x THEN 0 ELSE IF x = g.h[i] THEN g.n[x] ELSE g.h[i]
      g1 == [g EXCEPT !.h[i] = h1]
      g2 == WP(g1, g.n[x], g.p[x])
      g3 == W(g2, g2.p[x], g.n[x])
  IN WP(W(g3, x, 0), x, 0)
MvBack(g, i, x) ==
  LET g0 == IF x = g.h[i] THEN [g EXCEPT !.h[i] = g.n[x]] ELSE g
      g1 == W(WP(g0, g.n[x], g.p[x]), g.p[x], g.n[x])
      hd == g1.h[i]
      g2 == WP(W(g1, x, hd), x, g1.p[hd])
      g3 == W(g2, g2.p[hd], x)
  IN WP(g3, hd, x)
MvFront(g, i, x) == RotB(MvBack(g, i, x), i)
MvBefore(g, i, x, m) == LET g1 == Rem(g, i, x)
                            g2 == WP(W(WP(W(g1, x, m), x, g1.p[m]), g1.p[m], x), m, x)
                        IN IF g1.h[i] = m THEN [g2 EXCEPT !.h[i] = x] ELSE g2
MvAfter(g, i, x, m) == InsAfter(Rem(g, i, x), i, x, m)
Splice(g, i) == LET o == 3 - i IN
  IF g.h[o] = 0 THEN g
  ELSE IF g.h[i] = 0 THEN [g EXCEPT !.h[i] = g.h[o], !.h[o] = 0]
  ELSE LET mb == g.p[g.h[i]] ob == g.p[g.h[o]]
           g1 == W(W(g, mb, g.h[o]), ob, g.h[i])
           g2 == WP(WP(g1, g.h[o], mb), g.h[i], ob)
       IN [g2 EXCEPT !.h[o] = 0]
SpliceFront(g, i) == LET oh == g.h[3 - i] IN IF oh = 0 THEN g ELSE [Splice(g, i) EXCEPT !.h[i] = oh]
Do(g) == nxt' = g.n /\ prv' = g.p /\ head' = g.h
In(i) == Range_(SeqOf(i))
Free == {n \in 1..na : n \notin In(1) \cup In(2) \cup lost}

Init == nxt = [n \in N |-> 0] /\ prv = [n \in N |-> 0] /\ head = <<0, 0>> /\ na = 0 /\ lost = {}
Alloc == na < MaxNodes /\ na' = na + 1 /\ UNCHANGED <<nxt, prv, head, lost>>
Ops == \E i \in L :
  \/ \E x \in Free : Do(InsBack(H, i, x)) \/ Do(InsFront(H, i, x))
  \/ \E x \in Free, m \in In(i) : Do(InsBefore(H, i, x, m)) \/ Do(InsAfter(H, i, x, m))
  \/ \E x \in In(i) : Do(Rem(H, i, x)) \/ (nxt[x] # x /\ (Do(MvBack(H, i, x)) \/ Do(MvFront(H, i, x))))
  \/ \E x \in In(i), m \in In(i) : x # m /\ (nxt[x] # m \/ m = head[i]) /\ Do(MvBefore(H, i, x, m))
  \/ \E x \in In(i), m \in In(i) : x # m /\ (nxt[m] # x \/ x = head[i]) /\ Do(MvAfter(H, i, x, m))
  \/ Do(RotB(H, i)) \/ Do(RotF(H, i))
  \/ Do(Splice(H, i)) \/ Do(SpliceFront(H, i))
ClearOp == \E i \in L : head' = [head EXCEPT ![i] = 0] /\ lost' = lost \cup In(i) /\ UNCHANGED <<nxt, prv, na>>
Next == Alloc \/ (Ops /\ UNCHANGED <<na, lost>>) \/ ClearOp
Spec == Init /\ [][Next]_vars
Refines == D!ListSpec
BothWays == \A i \in L : BackSeqOf(i) = RevSeq(SeqOf(i))
Detached == \A n \in Free : nxt[n] = 0 /\ prv[n] = 0
Inv == BothWays /\ Detached /\ D!Wellformed
=============================================================================
