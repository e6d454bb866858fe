----------------------------- MODULE SortedList -----------------------------
(* A list of nodes with values (ranks): what Sort and the operations used     *)
(* around it do.                                                              *)
EXTENDS SeqOps
VARIABLES seq,   \* nodes in list order
          val    \* value of each node 1..Len(val)
slvars == <<seq, val>>
SInit == seq = <<>> /\ val = <<>>
\* a list is (re)built from values; nodes are numbered from 1
Fill(vs) == seq' = [i \in 1..Len(vs) |-> i] /\ val' = vs
Key(p, q) == \* position p sorts strictly before position q
  val[seq[p]] < val[seq[q]] \/ (val[seq[p]] = val[seq[q]] /\ p < q)
\* p is the stable sorting permutation: positions in the old list, in the new order
IsSort(p) == /\ Len(p) = Len(seq)
             /\ \A k \in 1..Len(p) : p[k] \in 1..Len(seq)
             /\ \A k \in 1..(Len(p) - 1) : Key(p[k], p[k + 1])
Sort(p) == (IsSort(p) = TRUE) /\ seq' = [k \in 1..Len(p) |-> seq[p[k]]] /\ UNCHANGED val
Push(v) == seq' = <<Len(val) + 1>> \o seq /\ val' = Append(val, v)
Pop(v, ok) == /\ ok = (seq # <<>>)
              /\ IF ok THEN v = val[seq[1]] /\ seq' = Tail(seq) ELSE seq' = seq
              /\ UNCHANGED val
Reverse == seq' = RevSeq(seq) /\ UNCHANGED val
SetVal(n, v) == val' = [val EXCEPT ![n] = v] /\ UNCHANGED seq
\* comparators by name
Holds(name, x, y) == IF name = "Greater" THEN x > y ELSE x < y
Known(name) == name \in {"", "Lesser", "Greater"}
=============================================================================
