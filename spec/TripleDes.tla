----------------------------- MODULE TripleDes -----------------------------
(* Triple-DES in ECB mode over an uninterpreted block cipher, the texts made  *)
(* from it, and the text codings used for keys and digests. Data are byte     *)
(* sequences.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---- keys and padding, for blocks (and cipher keys) of b bytes
Fit(k, b) == [i \in 1..(3 * b) |-> IF i <= Len(k) THEN k[i] ELSE 0]     \* cut or filled with zeros
Sub(k, n, b) == SubSeq(Fit(k, b), b * (n - 1) + 1, b * n)
Pad(m, b) == m \o [i \in 1..(b - (Len(m) % b)) |-> 0]
Strip(m) == LET I == {i \in 1..Len(m) : m[i] /= 0} IN
            IF I = {} THEN <<>> ELSE SubSeq(m, 1, CHOOSE i \in I : \A j \in I : j <= i)
Block(m, i, b) == SubSeq(m, b * (i - 1) + 1, b * i)
Count(m, b) == Len(m) \div b
Whole(m, b) == Len(m) > 0 /\ Len(m) % b = 0
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
\* ---- with the block cipher E(key, block) and its inverse D
Enc(E(_, _), D(_, _), m, k, b) ==
  LET p == Pad(m, b) IN Cat([i \in 1..Count(p, b) |-> E(Sub(k, 3, b), D(Sub(k, 2, b), E(Sub(k, 1, b), Block(p, i, b))))])
Dec(E(_, _), D(_, _), c, k, b) ==
  Strip(Cat([i \in 1..Count(c, b) |-> D(Sub(k, 1, b), E(Sub(k, 2, b), D(Sub(k, 3, b), Block(c, i, b))))]))
\* ---- hexadecimal and base 64
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(m) == Cat([i \in 1..Len(m) |-> <<HexDigit(m[i] \div 16), HexDigit(m[i] % 16)>>])
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) < 16
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
Equals == 61
Sym(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
          ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 99
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
B64(m) == Cat([g \in 1..((Len(m) + 2) \div 3) |->
            LET a == m[3 * g - 2]   b == At(m, 3 * g - 1)   c == At(m, 3 * g) IN
            <<Sym(a \div 4), Sym((a % 4) * 16 + (b \div 16)),
              IF 3 * g - 1 > Len(m) THEN Equals ELSE Sym((b % 16) * 4 + (c \div 64)),
              IF 3 * g > Len(m) THEN Equals ELSE Sym(c % 64)>>])
Solid(s) == SelectSeq(s, LAMBDA c : c /= 10 /\ c /= 13)       \* line ends do not count
IsB64(s0) == LET s == Solid(s0) n == Len(s)
                 pads == IF n >= 2 /\ s[n] = Equals THEN (IF s[n - 1] = Equals THEN 2 ELSE 1) ELSE IF n >= 1 /\ s[n] = Equals THEN 1 ELSE 0
             IN n % 4 = 0 /\ \A i \in 1..(n - pads) : Val(s[i]) < 64
UnB64(s0) == LET s == Solid(s0) v(i) == IF s[i] = Equals THEN 0 ELSE Val(s[i])
             IN Cat([g \in 1..(Len(s) \div 4) |->
                  LET j == 4 * g - 3   all == <<v(j) * 4 + (v(j + 1) \div 16), (v(j + 1) % 16) * 16 + (v(j + 2) \div 4), (v(j + 2) % 4) * 64 + v(j + 3)>>
                  IN SubSeq(all, 1, IF s[j + 2] = Equals THEN 1 ELSE IF s[j + 3] = Equals THEN 2 ELSE 3)])
=============================================================================
