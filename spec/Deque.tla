-------------------------------- MODULE Deque --------------------------------
(* Abstract double-ended queue: a sequence, and the size of its buffer, of    *)
(* which only what users may rely on is specified.                            *)
EXTENDS Integers, Sequences

CONSTANTS Values, Caps  \* values a generator may push; possible buffer sizes
VARIABLES q, cap        \* contents front..back; buffer size

vars == <<q, cap>>

Front_(s) == s[1]
Back_(s)  == s[Len(s)]
DropBack(s) == SubSeq(s, 1, Len(s) - 1)

Init == q = <<>> /\ cap \in Caps

PushFront(v, c) == q' = <<v>> \o q /\ cap' = c
PushBack(v, c)  == q' = Append(q, v) /\ cap' = c

\* pops and peeks: on an empty deque they fail and change nothing
PopFront(v, ok) == /\ ok = (q # <<>>)
                   /\ IF ok THEN v = Front_(q) /\ q' = Tail(q) ELSE q' = q
                   /\ UNCHANGED cap
PopBack(v, ok)  == /\ ok = (q # <<>>)
                   /\ IF ok THEN v = Back_(q) /\ q' = DropBack(q) ELSE q' = q
                   /\ UNCHANGED cap
\* many at once: the same as one after the other
PushAllFront(vs, c) == q' = [i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]] \o q /\ cap' = c
PushAllBack(vs, c)  == q' = q \o vs /\ cap' = c
Few(k) == IF k < Len(q) THEN k ELSE Len(q)
PopManyFront(k, vs) == LET n == Few(k) IN vs = SubSeq(q, 1, n) /\ q' = SubSeq(q, n + 1, Len(q)) /\ UNCHANGED cap
PopManyBack(k, vs)  == LET n == Few(k) m == Len(q) IN
                       /\ vs = [i \in 1..n |-> q[m + 1 - i]] /\ q' = SubSeq(q, 1, m - n) /\ UNCHANGED cap
Front(v, ok)    == ok = (q # <<>>) /\ (ok => v = Front_(q)) /\ UNCHANGED vars
Back(v, ok)     == ok = (q # <<>>) /\ (ok => v = Back_(q)) /\ UNCHANGED vars
\* contents unchanged; the answer says whether the buffer became smaller
Shrink(ok, c)   == q' = q /\ cap' = c /\ c <= cap /\ ok = (c < cap)
Clear(c)        == q' = <<>> /\ cap' = c
\* (re)initialisation
InitBuf(c)      == q' = <<>> /\ cap' = c

Next == \/ \E v \in Values, c \in Caps : PushFront(v, c) \/ PushBack(v, c)
        \/ \E v \in Values, ok \in BOOLEAN : PopFront(v, ok) \/ PopBack(v, ok) \/ Front(v, ok) \/ Back(v, ok)
        \/ \E ok \in BOOLEAN, c \in Caps : Shrink(ok, c)
        \/ \E c \in Caps : Clear(c) \/ InitBuf(c)
Spec == Init /\ [][Next]_vars

Holds == cap >= Len(q)      \* every element has a place
=============================================================================
