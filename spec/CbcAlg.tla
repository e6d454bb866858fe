------------------------------- MODULE CbcAlg -------------------------------
(* The two ends of a session over a toy block cipher (2-value blocks): each   *)
(* end keeps its own chaining block. Refines Session; generates histories.    *)
EXTENDS Session, TLC, Json, FiniteSets
CONSTANTS Vals, MaxMsg, MaxLen, Scenarios
VARIABLES wire, dch, got, hist
avars == <<svars, wire, dch, got, hist>>
N == Cardinality(Vals)
Idx(b) == b[1] * N + b[2]
OfIdx(i) == <<i \div N, i % N>>
E(b) == OfIdx((Idx(b) * 5 + 3) % (N * N))
Blk == {<<x, y>> : x, y \in Vals}
D == [c \in Blk |-> CHOOSE b \in Blk : E(b) = c]
RECURSIVE Enc(_, _), Dec(_, _)
Enc(c, bs) == IF bs = <<>> THEN <<>> ELSE LET o == E(XorB(bs[1], c)) IN o \o Enc(o, Tail(bs))
Dec(c, bs) == IF bs = <<>> THEN <<>> ELSE XorB(D[bs[1]], c) \o Dec(bs[1], Tail(bs))
Msgs == UNION {[1..k -> Vals] : k \in 0..MaxMsg}
One == {1}
IV == <<1, 0>>
Init == chain = [s \in One |-> IV] /\ sent = [s \in One |-> <<>>] /\ wire = <<>> /\ dch = IV /\ got = <<>> /\ hist = <<>>
Send == \E m \in Msgs : LET out == Enc(chain[1], Blocks(Pad(m)))
                            inv == [i \in 1..Len(Blocks(out)) |-> D[Blocks(out)[i]]]
                        IN Encrypt(1, m, out, inv) /\ wire' = Append(wire, out) /\ hist' = Append(hist, <<"enc", 1, Len(m)>>) /\ UNCHANGED <<dch, got>>
Recv == /\ wire # <<>>
        /\ LET m == Unpad(Dec(dch, Blocks(wire[1])))
           IN got' = <<m, sent[1][1]>> /\ Decrypt(1, sent[1][1])
        /\ dch' = LastBlock(wire[1]) /\ wire' = Tail(wire) /\ hist' = Append(hist, <<"dec", 1>>)
Next == Len(hist) < MaxLen /\ (Send \/ Recv)
Spec == Init /\ [][Next]_avars
RoundTrip == got # <<>> => got[1] = got[2]
View == <<svars, wire, dch, got, IF Scenarios THEN hist ELSE <<Len(hist)>>>>
Emit == Scenarios => (Len(hist') = MaxLen => PrintT(ToJson(hist')))
=============================================================================
