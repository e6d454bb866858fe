------------------------------ MODULE DurText ------------------------------
(* Lengths of time in nanoseconds (naturals of any size, base 1000) and their *)
(* texts (sequences of byte codes).                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
B == INSTANCE BigNat WITH Base <- 1000
\* powers of ten and the units
Kilo == <<0, 1>>
Us == <<0, 1>>   Ms == <<0, 0, 1>>   Sec == <<0, 0, 0, 1>>
Minute == <<0, 0, 0, 60>>   Hour == <<0, 0, 0, 600, 3>>   Day == <<0, 0, 0, 400, 86>>   Week == <<0, 0, 0, 800, 604>>
Ns == <<1>>
\* decimal digits
Dig(n) == 48 + n
Three(n) == <<Dig(n \div 100), Dig((n \div 10) % 10), Dig(n % 10)>>
DropZeros(s, z) == LET I == {i \in 1..Len(s) : s[i] /= z} IN IF I = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in I : \A j \in I : i <= j, Len(s))
CutZeros(s, z) == LET I == {i \in 1..Len(s) : s[i] /= z} IN IF I = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in I : \A j \in I : j <= i)
Digits(a) == LET s == FoldLeft(LAMBDA x, i : Three(a[i]) \o x, <<>>, [i \in 1..Len(a) |-> i]) IN
             IF a = <<>> THEN <<48>> ELSE DropZeros(s, 48)
\* a in units of 1000^n, with the fraction as far as it is not zero
Frac(a, n) == CutZeros(FoldLeft(LAMBDA x, i : Three(B!Dig(a, i)) \o x, <<>>, [i \in 1..n |-> i]), 48)
Decimal(a, n) == Digits(SubSeq(a, n + 1, Len(a))) \o (IF Frac(a, n) = <<>> THEN <<>> ELSE <<46>> \o Frac(a, n))
T_s == <<115>>  T_m == <<109>>  T_h == <<104>>  T_d == <<100>>  T_ns == <<110, 115>>  T_ms == <<109, 115>>
T_us == <<194, 181, 115>>
\* at least one hour, minute, second: 2h3m4.5s; below: ms, us, ns
StdText(a) ==
  IF a = <<>> THEN <<48>> \o T_s
  ELSE IF B!Lt(a, Us) THEN Decimal(a, 0) \o T_ns
  ELSE IF B!Lt(a, Ms) THEN Decimal(a, 1) \o T_us
  ELSE IF B!Lt(a, Sec) THEN Decimal(a, 2) \o T_ms
  ELSE LET h == B!Quot(a, Hour)   m == B!Quot(B!Rem(a, Hour), Minute)   s == B!Rem(a, Minute) IN
       (IF h = <<>> THEN <<>> ELSE Digits(h) \o T_h)
       \o (IF h = <<>> /\ m = <<>> THEN <<>> ELSE Digits(m) \o T_m)
       \o Decimal(s, 3) \o T_s
\* from a day up, the days come first
Text(neg, a) == IF neg THEN <<45>> \o StdText(a)
                ELSE IF B!Lt(a, Day) THEN StdText(a)
                ELSE Digits(B!Quot(a, Day)) \o T_d \o StdText(B!Rem(a, Day))
\* ---- reading: [ok, lo, hi]: the exact value lies in lo..hi (fractions finer than a nanosecond are cut off)
UnitOf(u) == CASE u = T_ns -> Ns [] u \in {<<117, 115>>, T_us, <<206, 188, 115>>} -> Us [] u = T_ms -> Ms [] u = T_s -> Sec
               [] u = T_m -> Minute [] u = T_h -> Hour [] OTHER -> <<>>
IsDig(c) == c \in 48..57
Number(s) == FoldLeft(LAMBDA a, c : B!Trim(B!MulD(a, 10, c - 48)), <<>>, s)
Ten(n) == FoldLeft(LAMBDA a, i : B!Trim(B!MulD(a, 10, 0)), <<1>>, [i \in 1..n |-> i])
Bad == [ok |-> FALSE, lo |-> <<>>, hi |-> <<>>]
RECURSIVE Terms(_, _)
First(s, P(_)) == LET I == {i \in 1..Len(s) : P(s[i])} IN IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Terms(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET i == First(s, LAMBDA c : ~IsDig(c))
           whole == SubSeq(s, 1, i - 1)
           dot == i <= Len(s) /\ s[i] = 46
           s2 == IF dot THEN SubSeq(s, i + 1, Len(s)) ELSE SubSeq(s, i, Len(s))
           j == IF dot THEN First(s2, LAMBDA c : ~IsDig(c)) ELSE 1
           frac == SubSeq(s2, 1, j - 1)
           s3 == SubSeq(s2, j, Len(s2))
           k == First(s3, LAMBDA c : IsDig(c) \/ c = 46)
           u == UnitOf(SubSeq(s3, 1, k - 1))
       IN IF (whole = <<>> /\ frac = <<>>) \/ u = <<>> THEN Bad
          ELSE LET part == B!Mul(Number(frac), u)
                   ten == Ten(Len(frac))
                   cut == B!Quot(part, ten)
                   base == B!Mul(Number(whole), u)
                   exact == B!Rem(part, ten) = <<>>
               IN Terms(SubSeq(s3, k, Len(s3)),
                        [ok |-> TRUE, lo |-> B!Add(acc.lo, B!Add(base, IF frac = <<>> \/ cut = <<>> THEN cut ELSE B!Sub(cut, Ns))),
                         hi |-> B!Add(acc.hi, B!Add(base, IF exact THEN cut ELSE B!Add(cut, Ns)))])
Signed(s) == s /= <<>> /\ s[1] \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Read(s) == LET b == Body(s) IN
           IF b = <<48>> THEN [ok |-> TRUE, lo |-> <<>>, hi |-> <<>>]
           ELSE IF b = <<>> THEN Bad ELSE Terms(b, [ok |-> FALSE, lo |-> <<>>, hi |-> <<>>])
Negative(s) == s /= <<>> /\ s[1] = 45
Limit == <<807, 775, 854, 36, 372, 223, 9>>      \* 2^63 - 1
LimitNeg == <<808, 775, 854, 36, 372, 223, 9>>
\* ---- m * 2^e (m of 53 bits) is a/u up to rounding
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN <<1>> ELSE IF n >= 9 THEN B!Trim(B!MulD(Two(n - 9), 512, 0)) ELSE B!Trim(B!MulD(Two(n - 1), 2, 0))
Gap(x, y) == IF B!Lt(x, y) THEN B!Sub(y, x) ELSE B!Sub(x, y)
Near(m, e, a, u) == LET x == B!Mul(B!Mul(m, u), IF e > 0 THEN Two(e) ELSE <<1>>)
                        y == B!Mul(a, IF e < 0 THEN Two(-e) ELSE <<1>>)
                    IN B!Le(B!Mul(Gap(x, y), Two(50)), y)
=============================================================================
