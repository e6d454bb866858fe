---------------------------- MODULE BigNatCheck ----------------------------
(* Digit arithmetic agrees with integer arithmetic, for all pairs below Lim.  *)
EXTENDS BigNat
CONSTANT Lim
VARIABLES x, y
Init == x \in 0..Lim /\ y \in 0..Lim
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Agree == LET a == Big(x) b == Big(y)
         IN /\ Small(a) = x /\ Trim(a) = a
            /\ Lt(a, b) = (x < y) /\ Le(a, b) = (x <= y)
            /\ Add(a, b) = Big(x + y)
            /\ (y <= x => Sub(a, b) = Big(x - y))
            /\ Mul(a, b) = Big(x * y)
            /\ (y > 0 => Quot(a, b) = Big(x \div y) /\ Rem(a, b) = Big(x % y))
=============================================================================
