-------------------------------- MODULE Stack --------------------------------
(* Abstract LIFO stack; Record/hist only serve script generation.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist
vars == <<s, hist>>

Init == s = <<>>
Push(v)    == s' = Append(s, v)
Pop(v, ok) == /\ ok = (s # <<>>)
              /\ IF ok THEN v = s[Len(s)] /\ s' = SubSeq(s, 1, Len(s) - 1) ELSE s' = s
\* many at once: the same as one after the other
PushAll(vs) == s' = s \o vs
PopMany(k, vs) == LET m == Len(s) n == IF k < m THEN k ELSE m IN
                  vs = [i \in 1..n |-> s[m + 1 - i]] /\ s' = SubSeq(s, 1, m - n)
Top(v, ok) == ok = (s # <<>>) /\ (ok => v = s[Len(s)]) /\ s' = s
Clear      == s' = <<>>

\* generator: all histories up to MaxLen operations; pushed values are numbered
Log(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x)
GenInit == Init /\ \E c \in {-99, -1, 0, 1, 3} : hist = << <<"new", c>> >>
N == Len(SelectSeq(hist, LAMBDA x : x[1] = "push")) + 1
InitSize == <<0, 2, -1, 12>>[1 + (Len(hist) % 4)]
GenNext == \/ Push(N) /\ Log(<<"push">>)
           \/ (IF s = <<>> THEN Pop(0, FALSE) ELSE Pop(s[Len(s)], TRUE)) /\ Log(<<"pop">>)
           \/ Clear /\ Log(<<"cl">>)
           \/ Clear /\ Log(<<"init", InitSize>>)
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
