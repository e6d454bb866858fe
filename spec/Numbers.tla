------------------------------ MODULE Numbers ------------------------------
(* Primality and nearest integer root of 32-bit numbers. TLC's integers stop  *)
(* at 2^31 - 1, so a number n is given as its half m = n \div 2 and b = n % 2. *)
EXTENDS BigNat
Table == {p \in 2..65536 : \A d \in 2..255 : d * d > p \/ p % d # 0}      \* every prime below 2^16
Mod(m, b, d) == (2 * (m % d) + b) % d
\* n is prime: greater than 1 and no smaller prime (up to 2^16) divides it
Prime(m, b) == /\ m >= 1
               /\ \A p \in Table : Mod(m, b, p) # 0 \/ (p \div 2 = m /\ p % 2 = b)
N(m, b) == Add(Add(Big(m), Big(m)), Big(b))
\* r is the integer nearest to sqrt(n):  (r - 1/2)^2 < n < (r + 1/2)^2
Nearest(n, r) == /\ Le(n, Add(Mul(r, r), r))
                 /\ IF r = <<>> THEN TRUE ELSE Lt(Mul(r, Sub(r, <<1>>)), n)
=============================================================================
