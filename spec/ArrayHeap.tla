----------------------------- MODULE ArrayHeap -----------------------------
(* The implementation's array heap with sift-up/sift-down and limit handling; *)
(* refines PrioBag. Also the script generator: one per (array, op).           *)
EXTENDS HeapOrder, Json
CONSTANTS Values, Limits, MaxSize, Record
VARIABLES b, mt, limit, hist
vars == <<b, mt, limit, hist>>
Log(x) == hist' = IF Record THEN Append(hist, x) ELSE hist

Init == /\ b = <<>> /\ mt \in BOOLEAN /\ limit \in Limits
        /\ hist = IF Record THEN << <<"new", 0, limit, mt>> >> ELSE <<>>
Push(v) == /\ IF limit > 0 /\ Len(b) >= limit
              THEN IF ~Before(mt, v, b[1]) THEN b' = HPush(mt, HPop(mt, b), v) ELSE b' = b
              ELSE Len(b) < MaxSize /\ b' = HPush(mt, b, v)
           /\ UNCHANGED <<mt, limit>> /\ Log(<<"push", v>>)
Pop == /\ b' = IF b = <<>> THEN b ELSE HPop(mt, b)
       /\ UNCHANGED <<mt, limit>> /\ Log(<<"pop">>)
Reinit(m, n) == b' = <<>> /\ mt' = m /\ limit' = n /\ Log(<<"init", 3, n, m>>)
Next == (\E v \in Values : Push(v)) \/ Pop \/ \E m \in BOOLEAN, n \in Limits : Reinit(m, n)
Spec == Init /\ [][Next]_vars
P == INSTANCE PrioBag WITH bag <- Asc(b)
Refines == P!Spec
HeapInv == IsHeap(mt, b) /\ P!WithinLimit
BulkOK == \A v, w \in Values : P!AtOnce(<<v>>) /\ P!AtOnce(<<v, w>>) /\ P!AtOnce(<<v, w, v>>)
GenView == <<b, mt, limit>>
Emit == PrintT(ToJson(hist'))
=============================================================================
