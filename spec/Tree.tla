-------------------------------- MODULE Tree --------------------------------
(* Ordered trees: nodes 1..Len(kids); kids[n] is the sequence of children of  *)
(* n. Node 1 is the root of the tree under test; removed children become      *)
(* detached roots that can be attached again. Child indices are 0-based.      *)
EXTENDS SeqOps, TLC, Json
VARIABLES kids, val
tvars == <<kids, val>>
Nodes == 1..Len(kids)
New == Len(kids) + 1
IsChild(n) == \E p \in Nodes : n \in Range_(kids[p])
Detached == {n \in Nodes \ {1} : ~IsChild(n)}
RECURSIVE PreIn(_, _), Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
PreIn(K, n) == <<n>> \o Concat([i \in 1..Len(K[n]) |-> PreIn(K, K[n][i])])
PreOrder(n) == PreIn(kids, n)
Below(n) == Range_(PreOrder(n))
TreeInit == kids = <<(<<>>)>> /\ val = <<500>>
Valid(p, i) == i >= 0 /\ i < Len(kids[p])
Put(s, i, x) == IF i >= 0 /\ i < Len(s) THEN InsertAt(s, i + 1, x) ELSE Append(s, x)
AddChild(p, v, i, r) == /\ r = New /\ val' = Append(val, v)
                        /\ kids' = Append([kids EXCEPT ![p] = Put(@, i, New)], <<>>)
AddChildNode(p, n, i, r) == r = n /\ kids' = [kids EXCEPT ![p] = Put(@, i, n)] /\ UNCHANGED val
RemoveChild(p, i, r, ok) == /\ ok = Valid(p, i) /\ UNCHANGED val
                            /\ IF ok THEN r = kids[p][i + 1] /\ kids' = [kids EXCEPT ![p] = RemoveIdx(@, i + 1)]
                               ELSE kids' = kids
\* sorting children: some ascending arrangement of the same children
SortChildren(p, s) == /\ Len(s) = Len(kids[p]) /\ Range_(s) = Range_(kids[p])
                      /\ \A k \in 1..(Len(s) - 1) : val[s[k]] <= val[s[k + 1]]
                      /\ kids' = [kids EXCEPT ![p] = s] /\ UNCHANGED val
\* a visitor: position in the pre-order sequence; 0 before the first step, -1 after an end was passed
VStep(pos, dir, size) ==
  IF pos = -1 THEN -1
  ELSE LET q == IF pos = 0 THEN (IF dir = "N" THEN 1 ELSE size) ELSE IF dir = "N" THEN pos + 1 ELSE pos - 1
       IN IF q \in 1..size THEN q ELSE -1
RECURSIVE VWalk(_, _, _)
VWalk(s, pos, dirs) == \* values seen, -1 where the step reported false
  IF dirs = <<>> THEN <<>>
  ELSE LET q == VStep(pos, Head(dirs), Len(s))
       IN <<IF q = -1 THEN -1 ELSE val[s[q]]>> \o VWalk(s, q, Tail(dirs))

\* ---- generator of edit histories ---------------------------------------------
CONSTANTS MaxNodes, MaxLen, Mode
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Idx(p) == -1..(Len(kids[p]) + 1)
V(n) == (n * 337) % 1001      \* scattered values: some orders differ from creation order
GenInit == TreeInit /\ hist = <<>>
GenNext == Len(hist) < MaxLen /\
  \E p \in Nodes :
    \/ Len(kids) < MaxNodes /\ \E i \in Idx(p) : AddChild(p, V(New), i, New) /\ Log(<<"add", p, V(New), i>>)
    \/ \E i \in Idx(p), n \in Detached : p \notin Below(n) /\ AddChildNode(p, n, i, n) /\ Log(<<"attach", p, n, i>>)
    \/ \E i \in Idx(p), r \in Nodes \cup {0}, ok \in BOOLEAN : RemoveChild(p, i, r, ok) /\ (ok \/ r = 0) /\ Log(<<"remove", p, i>>)
    \/ kids[p] # <<>> /\ SortChildren(p, SortSeq(kids[p], LAMBDA a, b : val[a] < val[b])) /\ Log(<<"sort", p>>)
GenSpec == GenInit /\ [][GenNext]_<<kids, val, hist>>
View == kids
Emit == IF Mode = "cover" THEN PrintT(ToJson(hist')) ELSE (Len(hist') = MaxLen => PrintT(ToJson(hist')))
\* every node has at most one parent and no cycles
Wellformed == /\ \A n \in Nodes : Cardinality({p \in Nodes : n \in Range_(kids[p])}) <= 1
              /\ \A n \in Nodes : Len(PreOrder(n)) = Cardinality(Below(n))
=============================================================================
