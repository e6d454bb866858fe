------------------------------ MODULE CommaAlg ------------------------------
(* The grouping loop (divide by 1000, prepend the remainder as three digits)  *)
(* produces exactly the grouped decimal digits.                               *)
EXTENDS Extract
CONSTANT Nums
VARIABLES n, left, s
Pad3(d) == <<48 + (d \div 100), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
Init == n \in Nums /\ left = n /\ s = <<>>
Next == left >= 1000 /\ s' = <<Comma>> \o Pad3(left % 1000) \o s /\ left' = left \div 1000 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, left, s>>
Chars(d) == [i \in 1..Len(d) |-> 48 + d[i]]
Right == left < 1000 => Chars(Decimal(Big(left))) \o s = Grouped(Decimal(Big(n)))
=============================================================================
