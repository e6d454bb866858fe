----------------------------- MODULE CbcAlgLen -----------------------------
(* As CbcAlg with one message per length: enumerates histories by lengths.    *)
EXTENDS CbcAlg
LMsgs == {[i \in 1..k |-> i % 2] : k \in 0..MaxMsg}
LSend == \E m \in LMsgs : LET out == Enc(chain[1], Blocks(Pad(m)))
                              inv == [i \in 1..Len(Blocks(out)) |-> D[Blocks(out)[i]]]
                          IN Encrypt(1, m, out, inv) /\ wire' = Append(wire, out) /\ hist' = Append(hist, <<"enc", 1, Len(m)>>) /\ UNCHANGED <<dch, got>>
LSpec == Init /\ [][Len(hist) < MaxLen /\ (LSend \/ Recv)]_avars
=============================================================================
