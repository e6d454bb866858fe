------------------------------ MODULE LcgBound ------------------------------
(* Bounded draws stay in bounds and reach every value of the range (small     *)
(* type: 16 values as two digits of base 4).                                  *)
EXTENDS Lcg
W == 16
Val == {Big(n) : n \in 0..15}
VARIABLES x, y
Init == x \in Val /\ y \in Val
Next == UNCHANGED <<x, y>>
In(r) == (Le(x, r) /\ Le(r, y)) \/ (Le(y, r) /\ Le(r, x))
Inside == \A n \in Val : In(Bound(n, x, y, W))
Onto == {Bound(n, x, y, W) : n \in Val} = {r \in Val : In(r)}
=============================================================================
