-------------------------------- MODULE SList --------------------------------
(* Abstract singly linked lists: two lists over a common pool of nodes, nil   *)
(* is 0. Each action takes its arguments and its result r.                    *)
EXTENDS SeqOps, TLC, Json
VARIABLES seq, val, lost
lvars == <<seq, val, lost>>
L == 1..2
Nodes == 1..Len(val)
Free == {n \in Nodes : n \notin Range_(seq[1]) \cup Range_(seq[2]) \cup lost}
New == Len(val) + 1
Other(i) == 3 - i
Set(i, s) == seq' = [seq EXCEPT ![i] = s]
Same == UNCHANGED lvars
In(i, n) == n \in Range_(seq[i])
FrontOf(i) == IF seq[i] = <<>> THEN 0 ELSE seq[i][1]

ListInit == seq = <<(<<>>), (<<>>)>> /\ val = <<>> /\ lost = {}
NewNode(v, r)      == r = New /\ val' = Append(val, v) /\ UNCHANGED <<seq, lost>>
PushFront(i, v, r) == r = New /\ val' = Append(val, v) /\ Set(i, <<New>> \o seq[i]) /\ UNCHANGED lost
\* k pushes of v in a row
News(k) == [j \in 1..k |-> Len(val) + j]
PushMany(i, k, v, r) == /\ r = News(k) /\ val' = val \o [j \in 1..k |-> v] /\ UNCHANGED lost
                        /\ Set(i, RevSeq(News(k)) \o seq[i])
InsertFront(i, n, r) == r = n /\ Set(i, IF n = 0 THEN seq[i] ELSE <<n>> \o seq[i]) /\ UNCHANGED <<val, lost>>
PushAfter(i, v, m, r) == IF m = 0 THEN r = 0 /\ Same
                         ELSE r = New /\ val' = Append(val, v) /\ Set(i, PutAfter(seq[i], New, m)) /\ UNCHANGED lost
InsertAfter(i, n, m, r) == IF n = 0 \/ m = 0 THEN r = 0 /\ Same
                           ELSE r = n /\ Set(i, PutAfter(seq[i], n, m)) /\ UNCHANGED <<val, lost>>
Remove(i, n, r) == IF In(i, n) THEN r = n /\ Set(i, Without(seq[i], n)) /\ UNCHANGED <<val, lost>> ELSE r = 0 /\ Same
RemoveFront(i, r) == Remove(i, FrontOf(i), r)
PopFront(i, v, ok) == /\ ok = (seq[i] # <<>>)
                      /\ IF ok THEN v = val[FrontOf(i)] /\ RemoveFront(i, FrontOf(i)) ELSE Same
PushFrontList(i) == /\ UNCHANGED <<val, lost>>
                    /\ seq' = [k \in L |-> IF k = i THEN seq[Other(i)] \o seq[i] ELSE <<>>]
\* moves return the node when it changes place, else nil
MoveFront(i, n, r) ==
  LET s == IF In(i, n) THEN <<n>> \o Without(seq[i], n) ELSE seq[i]
  IN r = (IF s # seq[i] THEN n ELSE 0) /\ Set(i, s) /\ UNCHANGED <<val, lost>>
MoveAfter(i, n, m, r) ==
  LET s == IF In(i, n) /\ m # 0 /\ n # m THEN PutAfter(Without(seq[i], n), n, m) ELSE seq[i]
  IN r = (IF s # seq[i] THEN n ELSE 0) /\ Set(i, s) /\ UNCHANGED <<val, lost>>
Reverse(i) == Set(i, RevSeq(seq[i])) /\ UNCHANGED <<val, lost>>
Clear(i) == Set(i, <<>>) /\ lost' = lost \cup Range_(seq[i]) /\ UNCHANGED val
NodeSet(n, v, old) == old = val[n] /\ val' = [val EXCEPT ![n] = v] /\ UNCHANGED <<seq, lost>>
Reachable(i, n, m, r) == /\ r = (In(i, n) /\ In(i, m) /\ IndexIn(seq[i], n) <= IndexIn(seq[i], m))
                         /\ Same
TailOf(i, n, t, size) == /\ IF n = 0 THEN t = 0 /\ size = 0
                            ELSE t = seq[i][Len(seq[i])] /\ size = Len(seq[i]) - IndexIn(seq[i], n) + 1
                         /\ Same
Wellformed == /\ \A i \in L : Len(seq[i]) = Cardinality(Range_(seq[i]))
              /\ Range_(seq[1]) \cap Range_(seq[2]) = {}

\* ---- generator -------------------------------------------------------------
CONSTANTS MaxNodes, MaxLen, Mode
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Room == Len(val) < MaxNodes
In0(i) == Range_(seq[i]) \cup {0}
Fr0 == Free \cup {0}
Res == 0..(Len(val) + 1)
GenNext == Len(hist) < MaxLen /\
  \/ \E i \in L, r \in Res :
     \/ Room /\ PushFront(i, New, r) /\ Log(<<"pushFront", i, New>>)
     \/ \E n \in Fr0 : InsertFront(i, n, r) /\ Log(<<"insFront", i, n>>)
     \/ \E m \in In0(i) : Room /\ PushAfter(i, New, m, r) /\ Log(<<"pushAfter", i, New, m>>)
     \/ \E m \in In0(i), n \in Fr0 : InsertAfter(i, n, m, r) /\ Log(<<"insAfter", i, n, m>>)
     \/ \E n \in Nodes \cup {0} : Remove(i, n, r) /\ Log(<<"remove", i, n>>)
     \/ RemoveFront(i, r) /\ Log(<<"removeFront", i>>)
     \/ \E n \in Nodes \cup {0} : MoveFront(i, n, r) /\ Log(<<"moveFront", i, n>>)
     \/ \E n \in Nodes \cup {0}, m \in In0(i) : MoveAfter(i, n, m, r) /\ Log(<<"moveAfter", i, n, m>>)
  \/ \E i \in L :
     \/ \E v \in 0..Len(val), ok \in BOOLEAN : PopFront(i, v, ok) /\ (ok \/ v = 0) /\ Log(<<"popFront", i>>)
     \/ PushFrontList(i) /\ Log(<<"pushFrontList", i>>)
     \/ Reverse(i) /\ Log(<<"reverse", i>>)
     \/ Clear(i) /\ Log(<<"clear", i>>)
  \/ Room /\ \E r \in Res : NewNode(New, r) /\ Log(<<"newNode", New>>)
GenInit == ListInit /\ hist = <<>>
GenSpec == GenInit /\ [][GenNext]_<<lvars, hist>>
FullView == <<seq, Free, lost>>
CountView == <<Len(seq[1]), Len(seq[2]), Cardinality(Free), Cardinality(lost)>>
Emit == IF Mode = "cover" THEN PrintT(ToJson(hist')) ELSE (Len(hist') = MaxLen => PrintT(ToJson(hist')))
=============================================================================
