----------------------------- MODULE HeapSlices -----------------------------
(* The slice algorithms: every slice over Values up to MaxLen. The invariants *)
(* check the modelled algorithms against their specification; Emit prints     *)
(* the slices as scripts for the real functions.                              *)
EXTENDS HeapOrder, Json
CONSTANTS Values, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E v \in Values : s' = Append(s, v)
Spec == Init /\ [][Next]_s
MakeOK == \A m \in BOOLEAN : IsHeap(m, HMake(m, s)) /\ SamePerm(s, HMake(m, s))
PushOK == \A m \in BOOLEAN : IsHeap(m, s) => \A v \in Values : IsHeap(m, HPush(m, s, v)) /\ SamePerm(Append(s, v), HPush(m, s, v))
PopOK  == \A m \in BOOLEAN : (s # <<>> /\ IsHeap(m, s)) =>
             IsTop(m, s[1], s) /\ IsHeap(m, HPop(m, s)) /\ SamePerm(s, Append(HPop(m, s), s[1]))
SortOK == \A m \in BOOLEAN : LET r == HSort(m, s) IN SamePerm(s, r) /\ Sorted(m, r)
Emit == PrintT(ToJson(<<s', IsHeap(TRUE, s'), IsHeap(FALSE, s')>>))
=============================================================================
