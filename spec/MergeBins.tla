------------------------------ MODULE MergeBins ------------------------------
(* The lists' bottom-up merge sort: a hand list and bins of 2^i nodes. The    *)
(* nodes are the positions of the input, in[n] their values. Invariant: every *)
(* bin is sorted, ties in input order, and holds earlier nodes than the bins  *)
(* below it; the result is the stable sort.                                   *)
EXTENDS SeqOps, TLC, Json
CONSTANTS Values, MaxLen
VARIABLES in, rest, bins, pc
vars == <<in, rest, bins, pc>>
Inputs == UNION {[1..n -> Values] : n \in 0..MaxLen}
RECURSIVE Merge(_, _)
Merge(a, b) == \* nodes of b go before those of a only if strictly smaller
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF in[b[1]] < in[a[1]] THEN <<b[1]>> \o Merge(a, Tail(b)) ELSE <<a[1]>> \o Merge(Tail(a), b)
RECURSIVE Carry(_, _, _)
Carry(bs, i, hand) ==
  IF i > Len(bs) THEN Append(bs, hand)
  ELSE IF bs[i] = <<>> THEN [bs EXCEPT ![i] = hand]
  ELSE Carry([bs EXCEPT ![i] = <<>>], i + 1, Merge(bs[i], hand))
Init == in \in Inputs /\ rest = [i \in 1..Len(in) |-> i] /\ bins = <<>> /\ pc = "take"
Take == /\ pc = "take" /\ rest # <<>>
        /\ bins' = Carry(bins, 1, <<rest[1]>>) /\ rest' = Tail(rest) /\ UNCHANGED <<in, pc>>
Fold == /\ pc = "take" /\ rest = <<>> /\ Len(bins) > 1
        /\ bins' = <<Merge(bins[2], bins[1])>> \o SubSeq(bins, 3, Len(bins)) /\ UNCHANGED <<in, rest, pc>>
Done == /\ pc = "take" /\ rest = <<>> /\ Len(bins) <= 1 /\ pc' = "done" /\ UNCHANGED <<in, rest, bins>>
Next == Take \/ Fold \/ Done
Spec == Init /\ [][Next]_vars
Before(a, b) == in[a] < in[b] \/ (in[a] = in[b] /\ a < b)
StablySorted(s) == \A k \in 1..(Len(s) - 1) : Before(s[k], s[k + 1])
BinsSorted == \A i \in 1..Len(bins) : StablySorted(bins[i])
Older == \A i, j \in 1..Len(bins) : i < j =>
           \A x \in Range_(bins[i]), y \in Range_(bins[j]) : y < x
Kept == UNION {Range_(bins[i]) : i \in 1..Len(bins)} \cup Range_(rest) = 1..Len(in)
Result == pc = "done" => IF in = <<>> THEN bins = <<>> ELSE StablySorted(bins[1]) /\ Len(bins[1]) = Len(in)
Emit == pc' = "done" => PrintT(ToJson(in'))
=============================================================================
