--------------------------- MODULE TripleDesCheck ---------------------------
(* A toy block cipher (blocks of 2 bytes over 0..2, keys of 2 bytes): what    *)
(* triple encryption promises, for all short messages and keys.               *)
EXTENDS TripleDes
CONSTANTS MaxLen, MaxKey
VARIABLES m, k
B == 2
Num(x) == 3 * x[1] + x[2]
Blk(n) == <<n \div 3, n % 3>>
\* three kinds of permutations of 0..8 that do not commute
Perm(key, n) == LET s == Num(key) IN IF s % 3 = 0 THEN (n + s + 1) % 9 ELSE IF s % 3 = 1 THEN ((n * 5) + s) % 9 ELSE IF n = s THEN 0 ELSE IF n = 0 THEN s ELSE n
E(key, x) == Blk(Perm(key, Num(x)))
D(key, y) == Blk(CHOOSE n \in 0..8 : Perm(key, n) = Num(y))
Words(n) == UNION {[1..i -> 0..2] : i \in 0..n}
Init == m \in Words(MaxLen) /\ k \in Words(MaxKey)
Step == UNCHANGED <<m, k>>
Spec == Init /\ [][Step]_<<m, k>>
C == Enc(E, D, m, k, B)
RoundTrip == Dec(E, D, C, k, B) = Strip(m)
Grows == Len(C) > Len(m) /\ Len(C) <= Len(m) + B /\ Whole(C, B)
Local == \A i \in 1..Count(m, B) : Block(C, i, B) = Block(Enc(E, D, Block(m, i, B), k, B), 1, B)     \* block by block
KeyFit == C = Enc(E, D, m, Fit(k, B), B) /\ C = Enc(E, D, m, Append(Fit(k, B), 1), B)
\* a key of three equal parts is single encryption
Single == Len(k) = B => Enc(E, D, m, k \o k \o k, B) = Cat([i \in 1..Count(Pad(m, B), B) |-> E(k, Block(Pad(m, B), i, B))])
Codings == /\ IsHex(Hex(m)) /\ UnHex(Hex(m)) = m
           /\ IsB64(B64(m)) /\ UnB64(B64(m)) = m
           /\ LET big == [i \in 1..Len(m) |-> m[i] * 127] IN UnHex(Hex(big)) = big /\ UnB64(B64(big)) = big
=============================================================================
