-------------------------------- MODULE Cbc --------------------------------
(* PKCS#7 padding and CBC chaining over a block permutation. A block is a     *)
(* sequence of BS byte values.                                                *)
EXTENDS Integers, Sequences, Bitwise
CONSTANT BS
PadTo(m, bs, fill(_)) == LET k == bs - (Len(m) % bs) IN m \o [i \in 1..k |-> fill(k)]
Same(k) == k
Pad(m) == PadTo(m, BS, Same)
Unpad(m) == SubSeq(m, 1, Len(m) - m[Len(m)])
Blocks(m) == [i \in 1..(Len(m) \div BS) |-> SubSeq(m, (i - 1) * BS + 1, i * BS)]
XorB(a, b) == [i \in 1..BS |-> a[i] ^^ b[i]]
LastBlock(m) == SubSeq(m, Len(m) - BS + 1, Len(m))
\* out is the encryption of msg after chaining block c; inv[i] is the inverse permutation of its i-th block
IsCipher(c, msg, out, inv) ==
  LET p == Blocks(Pad(msg))  o == Blocks(out)
  IN /\ Len(out) = Len(msg) + BS - (Len(msg) % BS) /\ Len(inv) = Len(o)
     /\ \A i \in 1..Len(o) : inv[i] = XorB(p[i], IF i = 1 THEN c ELSE o[i - 1])
=============================================================================
