------------------------------ MODULE ViewsGen ------------------------------
EXTENDS Views, TLC, Json
CONSTANTS MaxLen, MaxViews, Sizes
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Fill(n, h) == [j \in 1..n |-> (h * 20 + j) % 256]
Init == mem = <<>> /\ vs = <<>> /\ hist = <<>>
Room == Len(vs) < MaxViews
Next == Len(hist) < MaxLen /\ LET h == Len(hist) IN
  \/ Room /\ Len(mem) < 2 /\ \E n, sp \in Sizes : Alloc(Fill(n + sp, h), n) /\ Log(<<"alloc", n, sp, h>>)
  \/ Room /\ \E i \in DOMAIN vs : \/ ToString(i) /\ Log(<<"tos", i>>)
                                  \/ ToBytes(i) /\ Log(<<"tob", i>>)
                                  \/ \E p, q \in 0..vs[i].len : p < q /\ (p > 0 \/ q < vs[i].len) /\ Slice(i, p, q) /\ Log(<<"slice", i, p, q>>)
                                  \/ Grow(i, 200 + h, vs[i].len + 1, <<>>) /\ Log(<<"grow", i, 200 + h>>)
  \/ \E i \in DOMAIN vs : \E p \in {0, vs[i].len - 1} : Write(i, p, 100 + h) /\ Log(<<"write", i, p, 100 + h>>)
Spec == Init /\ [][Next]_<<mvars, hist>>
\* no view ever reaches outside its memory, and the byte view of a string cannot grow in place
Inside == \A i \in DOMAIN vs : vs[i].off + vs[i].cap <= Len(mem[vs[i].a]) /\ vs[i].len <= vs[i].cap
Emit == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
