---------------------------- MODULE DurTextCheck ----------------------------
(* The text of every length of time below a day reads back as that length,    *)
(* texts of different lengths differ, over all sums of boundary amounts.      *)
EXTENDS DurText
CONSTANT N
VARIABLES a
ASSUME /\ Minute = B!Mul(Sec, <<60>>) /\ Hour = B!Mul(Minute, <<60>>) /\ Day = B!Mul(Hour, <<24>>) /\ Week = B!Mul(Day, <<7>>)
       /\ LimitNeg = Two(63) /\ Limit = B!Sub(Two(63), Ns)
\* amounts are added unit by unit, from the weeks down
Units == <<<<Week, {1, N}>>, <<Day, {1, 6}>>, <<Hour, {1, 23}>>, <<Minute, {1, 59}>>, <<Sec, {1, 59}>>, <<Ms, {1, 20, 999}>>, <<Us, {1, 300, 999}>>, <<Ns, {1, 50, 999}>>>>
VARIABLE n
Init == a = <<>> /\ n = 1
Step == n <= Len(Units) /\ n' = n + 1 /\ \E c \in Units[n][2] \union {0} : a' = B!Add(a, B!Trim(B!MulD(Units[n][1], c, 0)))
Spec == Init /\ [][Step]_<<a, n>>
\* what comes before and after the days
Split(s) == LET i == First(s, LAMBDA c : c = 100) IN IF i > Len(s) THEN <<(<<>>), s>> ELSE <<SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s))>>
Back == LET p == Split(Text(FALSE, a)) r == Read(p[2]) IN
        /\ r.ok /\ B!Le(r.lo, r.hi)
        /\ B!Add(B!Mul(Number(p[1]), Day), r.hi) = a
        /\ B!Lt(r.hi, Day)
        /\ (p[1] = <<>>) = B!Lt(a, Day)
Neg == Read(Text(TRUE, a)).hi = a
Ok == B!Le(a, Limit)
=============================================================================
