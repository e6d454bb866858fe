----------------------------- MODULE TreeVisitor -----------------------------
(* The visitor's algorithm: current node plus a stack of (parent, index of    *)
(* the child under which we are); index -1 marks the not-yet-visited start.   *)
(* It refines a cursor on the pre-order sequence. Shapes: parent[k] < k, with *)
(* nodes numbered in pre-order.                                               *)
EXTENDS SeqOps, TLC, Json
CONSTANTS MaxNodes, MaxWalk, MinNodes
VARIABLES par,         \* shape: par[k] is the parent of node k (par[1] = 0)
          node, stack, \* the algorithm (node 0: none)
          pos,         \* the cursor: 0 fresh, -1 past an end
          walk
vars == <<par, node, stack, pos, walk>>
N == Len(par)
Kids(n) == SelectSeq([k \in 1..N |-> k], LAMBDA k : par[k] = n)
IsPreOrder(p) == \A k \in 2..Len(p) : \* the parent of k is k-1 or one of its ancestors
                   \E a \in 1..(k - 1) : a = p[k] /\ \A m \in (a + 1)..(k - 1) : p[m] >= a
Shapes == {p \in UNION {[1..n -> 0..(n - 1)] : n \in MinNodes..MaxNodes} :
             p[1] = 0 /\ (\A k \in 2..Len(p) : p[k] \in 1..(k - 1)) /\ IsPreOrder(p)}
Init == par \in Shapes /\ node = 0 /\ stack = <<(<<1, -1>>)>> /\ pos = 0 /\ walk = <<>>
Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Climb(_)
Climb(s) == \* next brother or uncle: <<node, stack>>
  IF s = <<>> THEN <<0, s>>
  ELSE LET t == s[Len(s)] IN
       IF t[2] < 0 THEN <<t[1], Pop(s)>>
       ELSE IF t[2] < Len(Kids(t[1])) - 1
            THEN <<Kids(t[1])[t[2] + 2], [s EXCEPT ![Len(s)] = <<t[1], t[2] + 1>>]>>
            ELSE Climb(Pop(s))
RECURSIVE TopRight(_, _)
TopRight(n, s) == LET c == Kids(n) IN IF c = <<>> THEN <<n, s>> ELSE TopRight(c[Len(c)], Append(s, <<n, Len(c) - 1>>))
NextRes == IF node # 0 /\ Kids(node) # <<>> THEN <<Kids(node)[1], Append(stack, <<node, 0>>)>> ELSE Climb(stack)
PrevRes == IF node = 0
           THEN IF stack = <<>> THEN <<0, stack>> ELSE TopRight(Top[1], Pop(stack))
           ELSE IF stack = <<>> THEN <<0, stack>>
           ELSE IF Top[2] > 0 THEN TopRight(Kids(Top[1])[Top[2]], [stack EXCEPT ![Len(stack)] = <<Top[1], Top[2] - 1>>])
           ELSE <<Top[1], Pop(stack)>>
Cursor(dir) == IF pos = -1 THEN -1
               ELSE LET q == IF pos = 0 THEN (IF dir = "N" THEN 1 ELSE N) ELSE IF dir = "N" THEN pos + 1 ELSE pos - 1
                    IN IF q \in 1..N THEN q ELSE -1
Step(dir) == LET r == IF dir = "N" THEN NextRes ELSE PrevRes
             IN node' = r[1] /\ stack' = r[2] /\ pos' = Cursor(dir) /\ walk' = Append(walk, dir) /\ UNCHANGED par
Next == Len(walk) < MaxWalk /\ \E d \in {"N", "P"} : Step(d)
Spec == Init /\ [][Next]_vars
View == <<par, node, stack, pos>>
\* nodes are numbered in pre-order, so the cursor position is the node
Agree == IF pos <= 0 THEN node = 0 ELSE node = pos
Emit == Len(walk') = MaxWalk => PrintT(ToJson(<<par', walk'>>))
=============================================================================
