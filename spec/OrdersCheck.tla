---------------------------- MODULE OrdersCheck ----------------------------
(* Both comparators are strict weak orders, and each other's converse; on     *)
(* files the order is total up to size and digest.                            *)
EXTENDS Orders
CONSTANTS Bytes, MaxLen, Sizes
VARIABLES x, y, z
Texts == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Files == {[k |-> "file", s |-> s, h |-> h] : s \in Sizes, h \in Texts}
Ints == {[k |-> "int", v |-> v] : v \in 0..3}
None == [k |-> "none"]
Init == x \in Files \cup Ints /\ y = None /\ z = None
Same(a, b) == a.k = b.k
Step == \/ y = None /\ y' \in {v \in Files \cup Ints : Same(v, x)} /\ UNCHANGED <<x, z>>
        \/ y /= None /\ z = None /\ z' \in {v \in Files \cup Ints : Same(v, x)} /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Step]_<<x, y, z>>
Irreflexive == ~OrderHolds("Lesser", x, x) /\ ~OrderHolds("Greater", x, x)
Converse == y /= None => /\ OrderHolds("Lesser", x, y) = OrderHolds("Greater", y, x)
                         /\ ~(OrderHolds("Lesser", x, y) /\ OrderHolds("Lesser", y, x))
                         /\ (OrderHolds("Lesser", x, y) \/ OrderHolds("Lesser", y, x) \/ x = y)
Transitive == z /= None => (OrderHolds("Lesser", x, y) /\ OrderHolds("Lesser", y, z) => OrderHolds("Lesser", x, z))
=============================================================================
