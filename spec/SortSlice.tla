------------------------------ MODULE SortSlice ------------------------------
(* The sortable slice: a sequence with positional edits. Indices are 0-based  *)
(* as in the API.                                                             *)
EXTENDS SeqOps, TLC, Json
VARIABLE d
Valid(i) == i >= 0 /\ i < Len(d)
Init0 == d' = <<>>
Push(v, n) == d' = Append(d, v) /\ n = Len(d) + 1
PushAll(vs, n) == d' = d \o vs /\ n = Len(d) + Len(vs)     \* one after the other
Insert(v, i, n) == d' = (IF Valid(i) THEN InsertAt(d, i + 1, v) ELSE Append(d, v)) /\ n = Len(d) + 1
Remove(i, v, ok) == /\ ok = Valid(i)
                    /\ IF ok THEN v = d[i + 1] /\ d' = RemoveIdx(d, i + 1) ELSE d' = d
Pop(v, ok) == Remove(Len(d) - 1, v, ok)
Get(i, v, ok) == ok = Valid(i) /\ (ok => v = d[i + 1]) /\ d' = d
MustGet(i, v, panics) == Get(i, v, ~panics)
Swap(i, j) == d' = [d EXCEPT ![i + 1] = d[j + 1], ![j + 1] = d[i + 1]]
Less(i, j, r) == r = (d[i + 1] < d[j + 1]) /\ d' = d
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SamePerm(a, b) == Len(a) = Len(b) /\ \A x \in Range_(a) \cup Range_(b) : Count(a, x) = Count(b, x)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Sort(r) == SamePerm(d, r) /\ Ascending(r) /\ d' = r

\* ---- generator -------------------------------------------------------------
CONSTANTS Values, MaxSize, MaxLen, Mode, Caps
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Idx == -2..(Len(d) + 1)
GenInit == d = <<>> /\ \E c \in Caps : hist = <<(<<"new", c>>)>>
Res == Values \cup {0}
GenNext == Len(hist) < MaxLen /\
  \/ Len(d) < MaxSize /\ \E v \in Values : \/ Push(v, Len(d) + 1) /\ Log(<<"push", v>>)
                                           \/ \E i \in Idx : Insert(v, i, Len(d) + 1) /\ Log(<<"ins", v, i>>)
  \/ \E i \in Idx, v \in Res, ok \in BOOLEAN :
       \/ Remove(i, v, ok) /\ (ok \/ v = 0) /\ Log(<<"rem", i>>)
       \/ Get(i, v, ok) /\ (ok \/ v = 0) /\ Log(<<"get", i>>)
       \/ MustGet(i, v, ok) /\ (~ok \/ v = 0) /\ Log(<<"must", i>>)
  \/ \E v \in Res, ok \in BOOLEAN : Pop(v, ok) /\ (ok \/ v = 0) /\ Log(<<"pop">>)
  \/ \E i, j \in 0..(Len(d) - 1) : Swap(i, j) /\ Log(<<"swap", i, j>>)
  \/ \E i, j \in 0..(Len(d) - 1), r \in BOOLEAN : Less(i, j, r) /\ Log(<<"less", i, j>>)
  \/ Sort(SortSeq(d, <)) /\ Log(<<"sort">>)
  \/ Init0 /\ \E c \in Caps : Log(<<"init", c>>)
GenSpec == GenInit /\ [][GenNext]_<<d, hist>>
View == d
Emit == IF Mode = "cover" THEN PrintT(ToJson(hist')) ELSE (Len(hist') = MaxLen => PrintT(ToJson(hist')))
=============================================================================
