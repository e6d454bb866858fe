------------------------------ MODULE DListGen ------------------------------
(* Generator over DList: every operation with every in-contract argument.     *)
EXTENDS DList
CONSTANTS MaxNodes, MaxLen, Both, Mode   \* Both: use two lists; Mode: "cover" or "sim"
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Ls == IF Both THEN L ELSE {1}
Room == Len(val) < MaxNodes
Act1 == \E i \in Ls :
     \/ Room /\ \E r \in Res : PushFront(i, New, r) /\ Log(<<"pushFront", i, New>>)
     \/ Room /\ \E r \in Res : PushBack(i, New, r) /\ Log(<<"pushBack", i, New>>)
     \/ \E n \in Fr0, r \in Res : InsertFront(i, n, r) /\ Log(<<"insFront", i, n>>)
     \/ \E n \in Fr0, r \in Res : InsertBack(i, n, r) /\ Log(<<"insBack", i, n>>)
     \/ Room /\ \E m \in In0(i), r \in Res : PushBefore(i, New, m, r) /\ Log(<<"pushBefore", i, New, m>>)
     \/ Room /\ \E m \in In0(i), r \in Res : PushAfter(i, New, m, r) /\ Log(<<"pushAfter", i, New, m>>)
     \/ \E n \in Fr0, m \in In0(i), r \in Res : InsertBefore(i, n, m, r) /\ Log(<<"insBefore", i, n, m>>)
     \/ \E n \in Fr0, m \in In0(i), r \in Res : InsertAfter(i, n, m, r) /\ Log(<<"insAfter", i, n, m>>)
Act2 == \E i \in Ls :
     \/ \E n \in In0(i) \cup Free, r \in Res : Remove(i, n, r) /\ Log(<<"remove", i, n>>)
     \/ \E r \in Res : RemoveFront(i, r) /\ Log(<<"removeFront", i>>)
     \/ \E r \in Res : RemoveBack(i, r) /\ Log(<<"removeBack", i>>)
     \/ \E v \in 0..Len(val), ok \in BOOLEAN : PopFront(i, v, ok) /\ (ok \/ v = 0) /\ Log(<<"popFront", i>>)
     \/ \E v \in 0..Len(val), ok \in BOOLEAN : PopBack(i, v, ok) /\ (ok \/ v = 0) /\ Log(<<"popBack", i>>)
     \/ Both /\ \E ok \in BOOLEAN : InsertFrontList(i, ok) /\ Log(<<"insFrontList", i>>)
     \/ Both /\ \E ok \in BOOLEAN : InsertBackList(i, ok) /\ Log(<<"insBackList", i>>)
Act3 == \E i \in Ls :
     \/ \E n \in In0(i) \cup Free, r \in Res : MoveFront(i, n, r) /\ Log(<<"moveFront", i, n>>)
     \/ \E n \in In0(i) \cup Free, r \in Res : MoveBack(i, n, r) /\ Log(<<"moveBack", i, n>>)
     \/ \E n \in In0(i) \cup Free, m \in In0(i), r \in Res : MoveBefore(i, n, m, r) /\ Log(<<"moveBefore", i, n, m>>)
     \/ \E n \in In0(i) \cup Free, m \in In0(i), r \in Res : MoveAfter(i, n, m, r) /\ Log(<<"moveAfter", i, n, m>>)
     \/ RotateForward(i) /\ Log(<<"rotF", i>>)
     \/ RotateBackward(i) /\ Log(<<"rotB", i>>)
     \/ Reverse(i) /\ Log(<<"reverse", i>>)
     \/ Clear(i) /\ Log(<<"clear", i>>)
Act4 == \/ Room /\ \E r \in Res : NewNode(New, r) /\ Log(<<"newNode", New>>)
        \/ \E n \in Nodes \ lost, o \in 0..Len(val) : NodeSet(n, val[n], o) /\ Log(<<"set", n, val[n]>>)
\* simulation favours structural changes over churn at the empty list
SimNext == \/ Act1 \/ Act2 \/ Act3 \/ Act4
GenInit == ListInit /\ hist = <<>>
GenNext == Len(hist) < MaxLen /\ (Act1 \/ Act2 \/ Act3 \/ Act4)
GenSpec == GenInit /\ [][GenNext]_<<lvars, hist>>
FullView == <<seq, Free, lost>>
CountView == <<Len(seq[1]), Len(seq[2]), Cardinality(Free), Cardinality(lost)>>
Emit == IF Mode = "cover" THEN PrintT(ToJson(hist')) ELSE (Len(hist') = MaxLen => PrintT(ToJson(hist')))
=============================================================================
