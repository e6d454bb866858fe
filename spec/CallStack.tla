----------------------------- MODULE CallStack -----------------------------
(* The call stack of a goroutine, innermost frame first; a frame is the       *)
(* function, its file and the line it is executing.                           *)
EXTENDS Integers, Sequences
VARIABLE stack
MaxList == 50
Frame(fn, file, ln) == [fn |-> fn, file |-> file, line |-> ln]
At(ln) == [stack EXCEPT ![1].line = ln]                     \* the innermost function executes line ln
Call(fn, file, ln) == stack' = <<Frame(fn, file, 0)>> \o At(ln)
Return == stack' = Tail(stack)
\* the frame k levels above the innermost one
Exists(k) == k + 1 <= Len(stack)
Nth(k, ln) == At(ln)[k + 1]
From(k, ln) == LET n == Len(stack) - k IN SubSeq(At(ln), k + 1, IF n > MaxList THEN k + MaxList ELSE Len(stack))
=============================================================================
