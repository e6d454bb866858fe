------------------------------- MODULE Orders -------------------------------
(* Values and the comparators of the library. A value is [k |-> kind, ...]:   *)
(*  int, node: [k, v] with v the rank of the integer (of the node's value);   *)
(*  file: [k, s, h] with s the rank of the size, h the bytes of the digest.   *)
(* A comparator is "Lesser", "Greater" or "none" (a value of the comparator   *)
(* type that is neither; it holds for no pair).                               *)
EXTENDS Integers, Sequences
LexBefore(a, b) ==
  \E n \in 0..Len(a) :
     /\ n <= Len(b)
     /\ \A i \in 1..n : a[i] = b[i]
     /\ n < Len(b)
     /\ (n = Len(a) \/ a[n + 1] < b[n + 1])
Before(x, y) ==
  IF x.k = "file" THEN x.s < y.s \/ (x.s = y.s /\ LexBefore(x.h, y.h)) ELSE x.v < y.v
OrderHolds(c, x, y) == CASE c = "Lesser" -> Before(x, y)
                         [] c = "Greater" -> Before(y, x)
                         [] OTHER -> FALSE
KnownName(n) == n \in {"", "Lesser", "Greater"}
OfName(n) == IF n = "Greater" THEN "Greater" ELSE "Lesser"
OfBool(bigFirst) == IF bigFirst THEN "Greater" ELSE "Lesser"
OfCode(c) == IF c = 0 THEN "Lesser" ELSE IF c = 1 THEN "Greater" ELSE "none"
TextOf(c) == IF c = "none" THEN "error cmp value" ELSE c
=============================================================================
