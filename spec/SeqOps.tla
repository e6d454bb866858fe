------------------------------- MODULE SeqOps -------------------------------
EXTENDS Integers, Sequences, FiniteSets
Range_(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* x becomes s[i]
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PutBefore(s, x, m) == InsertAt(s, IndexIn(s, m), x)
PutAfter(s, x, m)  == InsertAt(s, IndexIn(s, m) + 1, x)
=============================================================================
