------------------------------ MODULE RootAlg ------------------------------
(* The bitwise root loop (one state per step) and the trial division by 6k+-1 *)
(* numbers bounded by that root, for words of 2*Half bits.                    *)
EXTENDS Integers, FiniteSets
CONSTANT Half
VARIABLES n, rem, root, magic, i
vars == <<n, rem, root, magic, i>>
Top == 2 ^ (2 * Half) - 1
Init == n \in 0..Top /\ rem = n /\ root = 0 /\ magic = 2 ^ (2 * Half - 2) /\ i = 0
Step == /\ magic >= 1
        /\ IF magic + root <= rem THEN rem' = rem - magic - root /\ root' = root \div 2 + magic
                                  ELSE rem' = rem /\ root' = root \div 2
        /\ magic' = magic \div 4 /\ i' = i + 1 /\ UNCHANGED n
Spec == Init /\ [][Step]_vars
Result == IF root < rem THEN root + 1 ELSE root
Done == magic = 0
Floor == Done => root * root <= n /\ n < (root + 1) * (root + 1) /\ rem = n - root * root
Nearest == Done => n <= Result * (Result + 1) /\ (Result = 0 \/ n > Result * (Result - 1))
IsPrime(x) == x > 1 /\ \A d \in 2..(x - 1) : x % d # 0
Trial(x, max) == IF x < 2 THEN FALSE ELSE IF x \in {2, 3} THEN TRUE
                 ELSE IF x % 6 \notin {1, 5} THEN FALSE
                 ELSE \A p \in {q \in 5..max : IsPrime(q)} : x % p # 0
TrialExact == Done => Trial(n, Result) = IsPrime(n)
=============================================================================
