------------------------------ MODULE Extract ------------------------------
(* Bit, byte and word extraction, decimal grouping and bool conversion. A     *)
(* 32-bit value is its four bytes, least significant first; indices and       *)
(* 64-bit values are BigNat numbers; text is a sequence of character codes.   *)
EXTENDS BigNat, TLC
Valid(i, n) == Lt(i, Big(n))
Word(a, b) == <<a, b, 0, 0>>
Bit(v, i)  == Word((v[i \div 8 + 1] \div 2 ^ (i % 8)) % 2, 0)
Byte(v, i) == Word(v[i + 1], 0)
Half(v, i) == Word(v[2 * i + 1], v[2 * i + 2])
GetBit(v, i, r, ok)  == ok = Valid(i, 32) /\ (ok => r = Bit(v, Small(i)))
GetByte(v, i, r, ok) == ok = Valid(i, 4) /\ (ok => r = Byte(v, Small(i)))
GetWord(v, i, r, ok) == ok = Valid(i, 2) /\ (ok => r = Half(v, Small(i)))
\* decimal digits, most significant first
RECURSIVE Decimal(_)
Decimal(n) == IF Lt(n, <<10>>) THEN <<Small(n)>> ELSE Append(Decimal(Quot(n, <<10>>)), Small(Rem(n, <<10>>)))
Comma == 44
Grouped(d) == LET n == Len(d)
                  RECURSIVE Go(_)
                  Go(i) == IF i > n THEN <<>>
                           ELSE (IF i > 1 /\ (n - i + 1) % 3 = 0 THEN <<Comma>> ELSE <<>>) \o <<48 + d[i]>> \o Go(i + 1)
              IN Go(1)
CommaString(n, s) == s = Grouped(Decimal(n))
=============================================================================
