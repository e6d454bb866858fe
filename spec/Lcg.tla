-------------------------------- MODULE Lcg --------------------------------
(* Random generators: a W-bit linear congruential sequence. Numbers are       *)
(* little-endian digit sequences (BigNat with Base = 256).                    *)
EXTENDS BigNat
A32 == <<83, 112, 112>>                \* 7368787
C32 == <<207, 246, 41>>                 \* 2750159
A64 == <<121, 211, 255, 255>>           \* 4294955897
C64 == <<233, 95, 20, 244>>             \* 4094975977
Low(a, k) == IF Len(a) <= k THEN a ELSE Trim(SubSeq(a, 1, k))
Wrap(a, w) == Low(a, w \div 8)
NextNum(s, w) == Wrap(Add(Mul(s, IF w = 32 THEN A32 ELSE A64), IF w = 32 THEN C32 ELSE C64), w)
One == <<1>>
\* the draw n brought into lo..hi (given in either order)
Bound(n, x, y, w) == LET lo == IF Lt(y, x) THEN y ELSE x
                         hi == IF Lt(y, x) THEN x ELSE y
                         size == Wrap(Add(Sub(hi, lo), One), w)     \* <<>>: the whole type
                     IN IF size = <<>> THEN n ELSE Add(Rem(n, size), lo)
\* the result and next state of one operation [f, a, b] on state s
Result(f, s, a, b, w) ==
  CASE f = "rand"  -> NextNum(s, w)
    [] f = "range" -> Bound(NextNum(s, w), a, b, w)
    [] f = "max"   -> Bound(NextNum(s, w), <<>>, Sub(a, One), w)
    [] f = "seed"  -> s
    [] f = "srand" -> s
After(f, s, a, w) == CASE f \in {"rand", "range", "max"} -> NextNum(s, w)
                       [] f = "srand" -> a
                       [] OTHER -> s
\* ops (records f, a, b, r, call, ret) have a linearization from state s
RECURSIVE Lin(_, _, _, _)
Lin(ops, left, s, w) ==
  \/ left = {}
  \/ \E i \in left : /\ \A j \in left : ops[i].call < ops[j].ret      \* nothing that ended before i began is still left
                     /\ ops[i].r = Result(ops[i].f, s, ops[i].a, ops[i].b, w)
                     /\ Lin(ops, left \ {i}, After(ops[i].f, s, ops[i].a, w), w)
=============================================================================
