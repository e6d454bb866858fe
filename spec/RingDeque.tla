------------------------------ MODULE RingDeque ------------------------------
(* The implementation's ring buffer, one action per public operation. Checked *)
(* to refine Deque; also the generator of transition-covering scripts.        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, InitCaps, MaxCap, MinCap, Record
VARIABLES head, tail, buf, hist
vars == <<head, tail, buf, hist>>

Cap  == Len(buf)
At(i) == buf[i + 1]
NextI(i) == IF i + 1 >= Cap THEN 0 ELSE i + 1
PrevI(i) == IF i - 1 < 0 THEN Cap - 1 ELSE i - 1
Size == IF tail >= head THEN tail - head ELSE Cap - (head - tail)
Contents == [k \in 1..Size |-> buf[((head + k - 1) % Cap) + 1]]
NoVal == 0
Pad(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE NoVal]

Log(x) == hist' = IF Record THEN Append(hist, x) ELSE hist

Init == /\ \E c \in InitCaps : buf = [i \in 1..c |-> NoVal] /\ hist = IF Record THEN << <<"new", c>> >> ELSE <<>>
        /\ head = 0 /\ tail = 0

\* d' = buffer after writing; grow when the write position met the other end
Place(d, h, t) ==
  IF h = t
  THEN LET n == Len(d)
           all == SubSeq(d, h + 1, n) \o SubSeq(d, 1, t)
       IN  buf' = Pad(all, 2 * n) /\ head' = 0 /\ tail' = n
  ELSE buf' = d /\ head' = h /\ tail' = t

PushFront(v) == LET h == PrevI(head) IN Place([buf EXCEPT ![h + 1] = v], h, tail) /\ Log(<<"pf">>)
PushBack(v)  == LET t == NextI(tail) IN Place([buf EXCEPT ![tail + 1] = v], head, t) /\ Log(<<"pb">>)
PopFront == /\ IF head # tail THEN head' = NextI(head) ELSE head' = head
            /\ UNCHANGED <<tail, buf>> /\ Log(<<"xf">>)
PopBack  == /\ IF head # tail THEN tail' = PrevI(tail) ELSE tail' = tail
            /\ UNCHANGED <<head, buf>> /\ Log(<<"xb">>)
Shrink == /\ IF Cap > MinCap /\ Cap >= 3 * Size
             THEN buf' = Pad(Contents, Cap \div 2) /\ head' = 0 /\ tail' = Size
             ELSE UNCHANGED <<head, tail, buf>>
          /\ Log(<<"sh">>)
Clear == head' = 0 /\ tail' = 0 /\ UNCHANGED buf /\ Log(<<"cl">>)

Next == \/ \E v \in Values : PushFront(v) \/ PushBack(v)
        \/ PopFront \/ PopBack \/ Shrink \/ Clear
Spec == Init /\ [][Next]_vars

Bound == Len(buf') <= MaxCap
\* refinement: the ring is the abstract deque
A == INSTANCE Deque WITH q <- Contents, cap <- Cap, Caps <- 0..(2 * MaxCap)
Refines == A!Spec
TypeOK == head \in 0..(Cap - 1) /\ tail \in 0..(Cap - 1)
Roomy == A!Holds

\* script generation: one script per (head, tail, capacity, operation)
GenView == <<head, tail, Cap>>
Emit == Bound /\ PrintT(ToJson(hist'))
=============================================================================
