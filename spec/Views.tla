------------------------------- MODULE Views -------------------------------
(* Memory shared by string and byte views. mem[a] is the a-th allocation      *)
(* (spare capacity included); a view is [k, a, off, len, cap] with k "s" or   *)
(* "b". Conversions make another view of the same memory.                     *)
EXTENDS Integers, Sequences
VARIABLES mem, vs
mvars == <<mem, vs>>
View(k, a, off, n, c) == [k |-> k, a |-> a, off |-> off, len |-> n, cap |-> c]
Content(m, v) == SubSeq(m[v.a], v.off + 1, v.off + v.len)
IsB(i) == vs[i].k = "b"
Alloc(bytes, n) == mem' = Append(mem, bytes) /\ vs' = Append(vs, View("b", Len(mem) + 1, 0, n, Len(bytes)))
ToString(i) == IsB(i) /\ vs' = Append(vs, View("s", vs[i].a, vs[i].off, vs[i].len, vs[i].len)) /\ UNCHANGED mem
\* a byte view of a string must not reach beyond the string
ToBytes(i) == ~IsB(i) /\ vs' = Append(vs, View("b", vs[i].a, vs[i].off, vs[i].len, vs[i].len)) /\ UNCHANGED mem
Slice(i, p, q) == /\ 0 <= p /\ p <= q /\ q <= vs[i].len
                  /\ vs' = Append(vs, View(vs[i].k, vs[i].a, vs[i].off + p, q - p, IF IsB(i) THEN vs[i].cap - p ELSE q - p))
                  /\ UNCHANGED mem
Write(i, p, x) == IsB(i) /\ p \in 0..(vs[i].len - 1) /\ mem' = [mem EXCEPT ![vs[i].a][vs[i].off + p + 1] = x] /\ UNCHANGED vs
\* append one byte: in place if there is room, else into a new allocation of c bytes (whose tail t is not the caller's business)
Grow(i, x, c, t) ==
  /\ IsB(i)
  /\ LET v == vs[i] IN
     IF v.len < v.cap THEN /\ mem' = [mem EXCEPT ![v.a][v.off + v.len + 1] = x]
                           /\ vs' = Append(vs, View("b", v.a, v.off, v.len + 1, v.cap))
     ELSE /\ c > v.len /\ Len(t) = c - v.len - 1
          /\ mem' = Append(mem, Append(Content(mem, v), x) \o t)
          /\ vs' = Append(vs, View("b", Len(mem) + 1, 0, v.len + 1, c))
=============================================================================
