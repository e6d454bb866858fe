------------------------------ MODULE PrioBag ------------------------------
(* Abstract heap: a bag of values (kept as its ascending arrangement), an     *)
(* order and a size limit (<= 0: none).                                       *)
EXTENDS HeapOrder
CONSTANTS Values, Limits
VARIABLES bag, mt, limit
vars == <<bag, mt, limit>>

Ins(s, v) == SelectSeq(s, LAMBDA x : x <= v) \o <<v>> \o SelectSeq(s, LAMBDA x : x > v)
Del(s, v) == LET k == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Best == IF mt THEN bag[Len(bag)] ELSE bag[1]
Full == limit > 0 /\ Len(bag) >= limit

Init == bag = <<>> /\ mt \in BOOLEAN /\ limit \in Limits
Setup(m, n) == bag' = <<>> /\ mt' = m /\ limit' = n
Push(v) == /\ bag' = IF ~Full THEN Ins(bag, v)
                     ELSE IF Before(mt, v, Best) THEN bag
                     ELSE Ins(Del(bag, Best), v)
           /\ UNCHANGED <<mt, limit>>
Pop(v, ok) == /\ ok = (bag # <<>>)
              /\ IF ok THEN v = Best /\ bag' = Del(bag, v) ELSE bag' = bag
              /\ UNCHANGED <<mt, limit>>
\* many at once: the same as one after the other
PushAll(vs) == /\ bag' = LET all == Asc(bag \o vs) n == Len(all) IN
                         IF limit <= 0 \/ n <= limit THEN all
                         ELSE IF mt THEN SubSeq(all, 1, limit) ELSE SubSeq(all, n - limit + 1, n)
               /\ UNCHANGED <<mt, limit>>
PopMany(k, vs) == LET m == Len(bag) n == IF k < m THEN k ELSE m IN
                  /\ vs = [i \in 1..n |-> IF mt THEN bag[m + 1 - i] ELSE bag[i]]
                  /\ bag' = IF mt THEN SubSeq(bag, 1, m - n) ELSE SubSeq(bag, n + 1, m)
                  /\ UNCHANGED <<mt, limit>>
Top(v, ok) == ok = (bag # <<>>) /\ (ok => v = Best) /\ UNCHANGED vars
\* checked on the model: many at once is one after the other
RECURSIVE OneByOne(_, _)
OneByOne(b, vs) == IF vs = <<>> THEN b ELSE
  OneByOne(IF ~(limit > 0 /\ Len(b) >= limit) THEN Ins(b, Head(vs))
           ELSE LET best == IF mt THEN b[Len(b)] ELSE b[1] IN
                IF Before(mt, Head(vs), best) THEN b ELSE Ins(Del(b, best), Head(vs)), Tail(vs))
AtOnce(vs) == LET all == Asc(bag \o vs) n == Len(all) IN
  OneByOne(bag, vs) = (IF limit <= 0 \/ n <= limit THEN all
                       ELSE IF mt THEN SubSeq(all, 1, limit) ELSE SubSeq(all, n - limit + 1, n))
Next == \/ \E v \in Values : Push(v)
        \/ \E v \in Values, ok \in BOOLEAN : Pop(v, ok) \/ Top(v, ok)
        \/ \E m \in BOOLEAN, n \in Limits : Setup(m, n)
Spec == Init /\ [][Next]_vars
WithinLimit == limit > 0 => Len(bag) <= limit
=============================================================================
