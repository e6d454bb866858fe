----------------------------- MODULE HeapOrder -----------------------------
(* Order, heap property and the sift algorithms of the array heap             *)
(* (0-based children 2i+1, 2i+2), shared by the heap specifications.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* strictly better placed than: larger for max-on-top, smaller for min-on-top
Before(mt, a, b) == IF mt THEN a > b ELSE a < b
IsHeap(mt, s) == \A i \in 2..Len(s) : ~Before(mt, s[i], s[i \div 2])
Asc(s) == SortSeq(s, LAMBDA a, b : a < b)
SamePerm(s, t) == Len(s) = Len(t) /\ Asc(s) = Asc(t)
Sorted(mt, s) == \A i \in 1..(Len(s) - 1) : ~Before(mt, s[i], s[i + 1])   \* best element last
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsTop(mt, v, s) == \A i \in 1..Len(s) : ~Before(mt, s[i], v)

RECURSIVE SiftDown(_, _, _, _)
SiftDown(mt, s, hole, v) ==      \* 1-based hole
  LET lc == 2 * hole
      c  == IF lc + 1 <= Len(s) /\ Before(mt, s[lc + 1], s[lc]) THEN lc + 1 ELSE lc
  IN IF lc > Len(s) THEN [s EXCEPT ![hole] = v]
     ELSE IF Before(mt, s[c], v) THEN SiftDown(mt, [s EXCEPT ![hole] = s[c]], c, v)
     ELSE [s EXCEPT ![hole] = v]
RECURSIVE SiftUp(_, _, _, _)
SiftUp(mt, s, hole, v) ==
  IF hole > 1 /\ Before(mt, v, s[hole \div 2])
  THEN SiftUp(mt, [s EXCEPT ![hole] = s[hole \div 2]], hole \div 2, v)
  ELSE [s EXCEPT ![hole] = v]

HPush(mt, s, v) == SiftUp(mt, Append(s, v), Len(s) + 1, v)
HPop(mt, s) == IF Len(s) = 1 THEN <<>>
               ELSE SiftDown(mt, SubSeq(s, 1, Len(s) - 1), 1, s[Len(s)])
RECURSIVE Heapify(_, _, _)
Heapify(mt, s, i) == IF i < 1 THEN s ELSE Heapify(mt, SiftDown(mt, s, i, s[i]), i - 1)
HMake(mt, s) == Heapify(mt, s, Len(s) \div 2)
RECURSIVE HSort_(_, _, _)
HSort_(mt, s, done) == IF s = <<>> THEN done ELSE HSort_(mt, HPop(mt, s), <<s[1]>> \o done)
HSort(mt, s) == HSort_(mt, HMake(mt, s), <<>>)
=============================================================================
