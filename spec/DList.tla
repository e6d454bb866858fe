-------------------------------- MODULE DList --------------------------------
(* Abstract doubly linked lists: two lists over a common pool of nodes. A     *)
(* node is in at most one list; nil is 0. Each action takes its arguments and *)
(* its result r.                                                              *)
EXTENDS SeqOps, TLC, Json
VARIABLES seq,    \* seq[i]: nodes of list i, front first
          val,    \* val[n]: value of node n (nodes are 1..Len(val))
          lost    \* nodes abandoned by Clear (still chained to each other, no longer usable)
lvars == <<seq, val, lost>>
L == 1..2
Nodes == 1..Len(val)
Free == {n \in Nodes : n \notin Range_(seq[1]) \cup Range_(seq[2]) \cup lost}
New == Len(val) + 1
Other(i) == 3 - i
Set(i, s) == seq' = [seq EXCEPT ![i] = s]
Same == UNCHANGED lvars

ListInit == seq = <<(<<>>), (<<>>)>> /\ val = <<>> /\ lost = {}

\* a detached node comes into being (outside any list)
NewNode(v, r)    == r = New /\ val' = Append(val, v) /\ UNCHANGED <<seq, lost>>
PushFront(i, v, r) == r = New /\ val' = Append(val, v) /\ Set(i, <<New>> \o seq[i]) /\ UNCHANGED lost
PushBack(i, v, r)  == r = New /\ val' = Append(val, v) /\ Set(i, Append(seq[i], New)) /\ UNCHANGED lost
\* k pushes of v in a row at one end
News(k) == [j \in 1..k |-> Len(val) + j]
PushMany(i, k, v, w, r) == /\ r = News(k) /\ val' = val \o [j \in 1..k |-> v] /\ UNCHANGED lost
                           /\ Set(i, IF w = "F" THEN RevSeq(News(k)) \o seq[i] ELSE seq[i] \o News(k))
InsertFront(i, n, r) == r = n /\ Set(i, IF n = 0 THEN seq[i] ELSE <<n>> \o seq[i]) /\ UNCHANGED <<val, lost>>
InsertBack(i, n, r)  == r = n /\ Set(i, IF n = 0 THEN seq[i] ELSE Append(seq[i], n)) /\ UNCHANGED <<val, lost>>
PushBefore(i, v, m, r) == IF m = 0 THEN r = 0 /\ Same
                          ELSE r = New /\ val' = Append(val, v) /\ Set(i, PutBefore(seq[i], New, m)) /\ UNCHANGED lost
PushAfter(i, v, m, r)  == IF m = 0 THEN r = 0 /\ Same
                          ELSE r = New /\ val' = Append(val, v) /\ Set(i, PutAfter(seq[i], New, m)) /\ UNCHANGED lost
InsertBefore(i, n, m, r) == /\ r = n /\ UNCHANGED <<val, lost>>
                            /\ Set(i, IF n = 0 \/ m = 0 THEN seq[i] ELSE PutBefore(seq[i], n, m))
InsertAfter(i, n, m, r)  == /\ r = n /\ UNCHANGED <<val, lost>>
                            /\ Set(i, IF n = 0 \/ m = 0 THEN seq[i] ELSE PutAfter(seq[i], n, m))
FrontOf(i) == IF seq[i] = <<>> THEN 0 ELSE seq[i][1]
BackOf(i)  == IF seq[i] = <<>> THEN 0 ELSE seq[i][Len(seq[i])]
In(i, n) == n \in Range_(seq[i])
\* removing a node of the list returns it; nil and detached nodes change nothing
Remove(i, n, r) == IF In(i, n) THEN r = n /\ Set(i, Without(seq[i], n)) /\ UNCHANGED <<val, lost>> ELSE r = 0 /\ Same
RemoveFront(i, r) == Remove(i, FrontOf(i), r)
RemoveBack(i, r)  == Remove(i, BackOf(i), r)
PopFront(i, v, ok) == /\ ok = (seq[i] # <<>>)
                      /\ IF ok THEN v = val[FrontOf(i)] /\ RemoveFront(i, FrontOf(i)) ELSE Same
PopBack(i, v, ok)  == /\ ok = (seq[i] # <<>>)
                      /\ IF ok THEN v = val[BackOf(i)] /\ RemoveBack(i, BackOf(i)) ELSE Same
\* splice the other list in; it becomes empty
InsertFrontList(i, ok) == /\ ok = (seq[Other(i)] # <<>>) /\ UNCHANGED <<val, lost>>
                          /\ seq' = [k \in L |-> IF k = i THEN seq[Other(i)] \o seq[i] ELSE <<>>]
InsertBackList(i, ok)  == /\ ok = (seq[Other(i)] # <<>>) /\ UNCHANGED <<val, lost>>
                          /\ seq' = [k \in L |-> IF k = i THEN seq[i] \o seq[Other(i)] ELSE <<>>]
\* moves return the node when there is something to do, else nil
MoveFront(i, n, r) == /\ r = IF In(i, n) /\ Len(seq[i]) > 1 THEN n ELSE 0
                      /\ Set(i, IF In(i, n) THEN <<n>> \o Without(seq[i], n) ELSE seq[i]) /\ UNCHANGED <<val, lost>>
MoveBack(i, n, r)  == /\ r = IF In(i, n) /\ Len(seq[i]) > 1 THEN n ELSE 0
                      /\ Set(i, IF In(i, n) THEN Append(Without(seq[i], n), n) ELSE seq[i]) /\ UNCHANGED <<val, lost>>
MoveBefore(i, n, m, r) ==
  LET s == IF In(i, n) /\ m # 0 /\ n # m THEN PutBefore(Without(seq[i], n), n, m) ELSE seq[i]
  IN r = (IF s # seq[i] THEN n ELSE 0) /\ Set(i, s) /\ UNCHANGED <<val, lost>>
MoveAfter(i, n, m, r) ==
  LET s == IF In(i, n) /\ m # 0 /\ n # m THEN PutAfter(Without(seq[i], n), n, m) ELSE seq[i]
  IN r = (IF s # seq[i] THEN n ELSE 0) /\ Set(i, s) /\ UNCHANGED <<val, lost>>
RotF(s) == IF s = <<>> THEN s ELSE Append(Tail(s), s[1])
RotB(s) == IF s = <<>> THEN s ELSE <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1)
RotateForward(i)  == Set(i, RotF(seq[i])) /\ UNCHANGED <<val, lost>>
RotateBackward(i) == Set(i, RotB(seq[i])) /\ UNCHANGED <<val, lost>>
Reverse(i) == Set(i, RevSeq(seq[i])) /\ UNCHANGED <<val, lost>>
Clear(i) == Set(i, <<>>) /\ lost' = lost \cup Range_(seq[i]) /\ UNCHANGED val
NodeSet(n, v, old) == old = val[n] /\ val' = [val EXCEPT ![n] = v] /\ UNCHANGED <<seq, lost>>
Reachable(i, n, m, r) == r = (In(i, n) /\ In(i, m)) /\ Same
\* a visitor walk: directions N(ext), P(rev), R(eset) from a fresh visitor; result per step: the node, 0 when
\* the end is passed, -2 for steps after that up to the next Reset (not taken), -1 for Reset
RECURSIVE Walk(_, _, _)
Walk(s, pos, dirs) ==
  IF dirs = <<>> THEN <<>>
  ELSE LET d == Head(dirs)
           p == CASE d = "R" -> 0
                  [] pos = -5 -> -5
                  [] d = "N" -> IF pos = 0 THEN 1 ELSE pos + 1
                  [] d = "P" -> IF pos = 0 THEN Len(s) ELSE pos - 1
           out == IF d = "R" THEN -1 ELSE IF pos = -5 THEN -2 ELSE IF p \in 1..Len(s) THEN s[p] ELSE 0
       IN <<out>> \o Walk(s, IF out = 0 THEN -5 ELSE p, Tail(dirs))
Visit(i, dirs, r) == r = Walk(seq[i], 0, dirs) /\ Same

\* all operations with in-contract arguments (marks in the list, inserted nodes detached)
In0(i) == Range_(seq[i]) \cup {0}
Fr0 == Free \cup {0}
Res == 0..(Len(val) + 1)
ListNext ==
  \/ \E r \in Res : NewNode(New, r)
  \/ \E i \in L, n \in Nodes \cup {0}, m \in Nodes \cup {0}, r \in Res :
       \/ PushFront(i, New, r) \/ PushBack(i, New, r)
       \/ n \in Fr0 /\ (InsertFront(i, n, r) \/ InsertBack(i, n, r))
       \/ m \in In0(i) /\ (PushBefore(i, New, m, r) \/ PushAfter(i, New, m, r))
       \/ n \in Fr0 /\ m \in In0(i) /\ (InsertBefore(i, n, m, r) \/ InsertAfter(i, n, m, r))
       \/ n \in In0(i) \cup Free /\ (Remove(i, n, r) \/ MoveFront(i, n, r) \/ MoveBack(i, n, r))
       \/ n \in In0(i) \cup Free /\ m \in In0(i) /\ (MoveBefore(i, n, m, r) \/ MoveAfter(i, n, m, r))
  \/ \E i \in L, ok \in BOOLEAN : InsertFrontList(i, ok) \/ InsertBackList(i, ok)
  \/ \E i \in L : RotateForward(i) \/ RotateBackward(i) \/ Reverse(i) \/ Clear(i)
ListSpec == ListInit /\ [][ListNext]_lvars

Wellformed == /\ \A i \in L : Len(seq[i]) = Cardinality(Range_(seq[i]))
              /\ Range_(seq[1]) \cap Range_(seq[2]) = {}
              /\ (Range_(seq[1]) \cup Range_(seq[2])) \cap lost = {}
=============================================================================
