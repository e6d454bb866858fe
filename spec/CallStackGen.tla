---------------------------- MODULE CallStackGen ----------------------------
(* Every probe from every call stack of bounded depth over the function kinds.*)
EXTENDS CallStack, TLC, Json
CONSTANTS Kinds, MaxDepth, MaxLen
VARIABLE hist
Log(x) == hist' = Append(hist, x)
Bottom == <<Frame("main", "", 0), Frame("goexit", "", 0)>>
Init == stack = Bottom /\ hist = <<>>
Depth == Len(stack) - 2
Next == Len(hist) < MaxLen /\
  \/ Depth < MaxDepth /\ \E f \in Kinds : Call(f, "", 0) /\ Log(<<f>>)
  \/ Depth > 0 /\ Return /\ Log(<<"ret">>)
  \/ UNCHANGED stack /\ \/ \E p \in {"bt", "btf", "btl", "bts"} : Log(<<p>>)
                        \/ \E p \in {"caller", "callerf", "callerl", "list"}, k \in 0..(Depth + 5) : Log(<<p, k>>)
                        \/ \E k \in {0, 1} : Log(<<"assert", k>>)
                        \/ \E k \in 0..7 : Log(<<"leaf", k>>)
Spec == Init /\ [][Next]_<<stack, hist>>
View == stack
Listed == \A k \in 0..(Len(stack) - 1) : LET l == From(k, 0) IN l[1] = Nth(k, 0) /\ Len(l) = (IF Len(stack) - k > MaxList THEN MaxList ELSE Len(stack) - k)
Emit == PrintT(ToJson(hist'))
=============================================================================
