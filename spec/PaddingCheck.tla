---------------------------- MODULE PaddingCheck ----------------------------
(* Padding laws for all short data; every case is a scenario.                 *)
EXTENDS Padding, TLC, Json
CONSTANTS MaxLen, MaxBs, Vals, Kinds
VARIABLES m, bs, kind
Init == m \in UNION {[1..k -> Vals] : k \in 0..MaxLen} /\ bs \in 1..MaxBs /\ kind \in Kinds
Next == UNCHANGED <<m, bs, kind>>
Spec == Init /\ [][Next]_<<m, bs, kind>>
Laws == Whole(kind, m, bs) /\ Reversible(kind, m, bs)
Emit == PrintT(ToJson(<<(<<kind, m, bs>>)>>))
=============================================================================
