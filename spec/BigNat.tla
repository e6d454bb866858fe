------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian digit sequences without       *)
(* leading zeros (TLC's own integers have 32 bits).                           *)
EXTENDS Integers, Sequences
CONSTANT Base
RECURSIVE Trim(_), AddC(_, _, _, _), SubB(_, _, _, _), MulD(_, _, _), Mul(_, _), Big(_), Small(_), Div(_, _, _)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)
Small(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * Small(Tail(a))      \* only for numbers TLC can hold
Lt(a, b) == \/ Len(a) < Len(b)
            \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
Le(a, b) == a = b \/ Lt(a, b)
AddC(a, b, i, c) == IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % Base>> \o AddC(a, b, i + 1, s \div Base)
Add(a, b) == AddC(a, b, 1, 0)
SubB(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == a[i] - Dig(b, i) - c
                         IN <<IF s < 0 THEN s + Base ELSE s>> \o SubB(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubB(a, b, 1, 0))                                    \* for b <= a
MulD(a, d, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)      \* a * d + c for a digit d
                 ELSE LET s == a[1] * d + c IN <<s % Base>> \o MulD(Tail(a), d, s \div Base)
Shift(a, d) == IF a = <<>> /\ d = 0 THEN <<>> ELSE <<d>> \o a          \* a * Base + d
Mul(a, b) == IF a = <<>> THEN <<>> ELSE Add(Trim(MulD(b, a[1], 0)), Shift(Mul(Tail(a), b), 0))
\* the largest digit q with q*b <= r (binary search)
RECURSIVE QDig(_, _, _, _)
QDig(r, b, lo, hi) == IF lo = hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2
                           IN IF Le(Trim(MulD(b, m, 0)), r) THEN QDig(r, b, m, hi) ELSE QDig(r, b, lo, m - 1)
\* schoolbook division: digits of a from number i down, remainder r so far; gives <<quotient digits, remainder>>
Div(a, b, i) == IF i > Len(a) THEN <<(<<>>), <<>>>>
                ELSE LET up == Div(a, b, i + 1)
                         r  == Shift(up[2], a[i])
                         q  == QDig(r, b, 0, Base - 1)
                     IN <<Shift(up[1], q), Sub(r, Trim(MulD(b, q, 0)))>>
Quot(a, b) == Div(a, b, 1)[1]
Rem(a, b) == Div(a, b, 1)[2]
=============================================================================
