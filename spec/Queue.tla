-------------------------------- MODULE Queue --------------------------------
(* Abstract FIFO queue.                                                       *)
EXTENDS Integers, Sequences
CONSTANTS Values, Caps
VARIABLES q, cap
vars == <<q, cap>>

Init == q = <<>> /\ cap \in Caps
Push(v, c)   == q' = Append(q, v) /\ cap' = c
Pop(v, ok)   == /\ ok = (q # <<>>)
                /\ IF ok THEN v = q[1] /\ q' = Tail(q) ELSE q' = q
                /\ UNCHANGED cap
\* many at once: the same as one after the other
PushAll(vs, c) == q' = q \o vs /\ cap' = c
PopMany(k, vs) == LET n == IF k < Len(q) THEN k ELSE Len(q) IN
                  vs = SubSeq(q, 1, n) /\ q' = SubSeq(q, n + 1, Len(q)) /\ UNCHANGED cap
Front(v, ok) == ok = (q # <<>>) /\ (ok => v = q[1]) /\ UNCHANGED vars
Back(v, ok)  == ok = (q # <<>>) /\ (ok => v = q[Len(q)]) /\ UNCHANGED vars
Shrink(ok, c) == q' = q /\ cap' = c /\ c <= cap /\ ok = (c < cap)
Clear(c)     == q' = <<>> /\ cap' = c
InitBuf(c)   == q' = <<>> /\ cap' = c

Next == \/ \E v \in Values, c \in Caps : Push(v, c)
        \/ \E v \in Values, ok \in BOOLEAN : Pop(v, ok) \/ Front(v, ok) \/ Back(v, ok)
        \/ \E ok \in BOOLEAN, c \in Caps : Shrink(ok, c)
        \/ \E c \in Caps : Clear(c) \/ InitBuf(c)
Spec == Init /\ [][Next]_vars
Holds == cap >= Len(q)
=============================================================================
