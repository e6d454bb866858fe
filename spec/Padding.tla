------------------------------ MODULE Padding ------------------------------
(* Block padding of byte sequences: k = 1..bs bytes are appended up to the    *)
(* next multiple of the block size, all zero or all equal to k.               *)
EXTENDS Integers, Sequences
K(m, bs) == bs - (Len(m) % bs)
Fill(v, k) == [i \in 1..k |-> v]
Padded(kind, m, bs) == m \o Fill(IF kind = "zero" THEN 0 ELSE K(m, bs), K(m, bs))
RECURSIVE Strip0(_)
Strip0(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Strip0(SubSeq(m, 1, Len(m) - 1)) ELSE m
Unpadded(kind, m) == IF kind = "zero" THEN Strip0(m) ELSE SubSeq(m, 1, Len(m) - m[Len(m)])
Whole(kind, m, bs) == Len(Padded(kind, m, bs)) % bs = 0 /\ Len(Padded(kind, m, bs)) \in (Len(m) + 1)..(Len(m) + bs)
Reversible(kind, m, bs) == (kind = "zero" => Strip0(m) = m) => Unpadded(kind, Padded(kind, m, bs)) = m
=============================================================================
