----------------------------- MODULE RangedGen -----------------------------
(* Generator: every creation over a domain of boundary numbers and every      *)
(* operation after it; also checks that the value never leaves its bounds.    *)
EXTENDS Ranged
CONSTANTS Bits, MaxLen, Mode, Dense
VARIABLE hist
Dom == IF Dense THEN {Big(n) : n \in 0..4}
       ELSE {Big(0), Big(1), Big(2), Sub(Top, Big(2)), Sub(Top, Big(1)), Top}
              \cup (IF Bits = 32 THEN {Big(65535), Big(65536)} ELSE {Sub(Mul(Big(65536), Big(65536)), One), Mul(Big(65536), Big(65536))})
Log(x) == hist' = Append(hist, x)
Pick(F(_, _), dom, name, arg) == \E ok \in BOOLEAN, r \in dom : F(r, ok) /\ Log(<<name>> \o arg)
GenInit == val = <<>> /\ lo = <<>> /\ hi = <<>> /\ live = FALSE /\ hist = <<>>
\* results are determined by the operation: choose them instead of searching for them
Can(v) == Fits(v, lo, hi)
GenNext == Len(hist) < MaxLen /\
  \/ ~live /\ hist = <<>> /\ \E v, a, b \in Dom : New(v, a, b, Fits(v, a, b)) /\ Log(<<"new", v, a, b>>)
  \/ live /\ Mode = "walk" /\ \E v, a, b \in Dom : Init0(v, a, b, Fits(v, a, b)) /\ Log(<<"init", v, a, b>>)
  \/ live /\ \/ \E x \in Dom :
                  \/ Set(x, val, Can(x)) /\ Log(<<"set", x>>)
                  \/ AddQ(x, Add(val, x), Can(Add(val, x))) /\ Log(<<"add", x>>)
                  \/ SubQ(x, IF Le(x, val) THEN Sub(val, x) ELSE <<>>, Le(x, val) /\ Can(Sub(val, x))) /\ Log(<<"sub", x>>)
                  \/ MulQ(x, Mul(val, x), Can(Mul(val, x))) /\ Log(<<"mul", x>>)
                  \/ DivQ(x, IF x = <<>> THEN <<>> ELSE Quot(val, x), x # <<>> /\ Can(Quot(val, x))) /\ Log(<<"div", x>>)
                  \/ ModQ(x, IF x = <<>> THEN <<>> ELSE Rem(val, x), x # <<>> /\ Can(Rem(val, x))) /\ Log(<<"mod", x>>)
                  \/ UNCHANGED vars /\ Log(<<"in", x>>)
             \/ Inc(val, Can(Add(val, One))) /\ Log(<<"inc">>)
             \/ Dec(val, val # <<>> /\ Can(Sub(val, One))) /\ Log(<<"dec">>)
             \/ Reset /\ Log(<<"reset">>)
             \/ ResetR /\ Log(<<"resetr">>)
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == Mode = "check" \/ PrintT(ToJson(hist'))
View == <<vars, Len(hist)>>
=============================================================================
