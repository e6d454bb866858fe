--------------------------- MODULE CallStackTrace ---------------------------
EXTENDS CallStack, TraceKit
Fr(f) == Frame(f.fn, f.file, f.line)
Frs(fs) == [i \in 1..Len(fs) |-> Fr(fs[i])]
SameFunc(f, g) == f.fn = g.fn
SameLine(f, g) == f.file = g.file /\ f.line = g.line
One(e, k, F(_, _)) == e.has = Exists(k) /\ (e.has => F(e.f, Nth(k, e.ln)))
Both(f, g) == SameFunc(f, g) /\ SameLine(f, g)
List(e, k) == IF k >= Len(stack) THEN e.fs = <<>> ELSE Frs(e.fs) = From(k, e.ln)
\* the back-trace in an assertion failure ends with the frames of the function that asserted (two closures of
\* the driver and the recovering function may stand between)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Step(e) ==
  CASE e.op = "base"    -> stack' = Frs(e.fs)
    [] e.op = "call"    -> Call(e.fn, e.file, e.ln)
    [] e.op = "ret"     -> Return
    [] OTHER -> /\ UNCHANGED stack
                /\ CASE e.op = "bt"      -> One(e, 0, Both)
                     [] e.op = "btf"     -> One(e, 0, SameFunc)
                     [] e.op = "btl"     -> One(e, 0, SameLine)
                     [] e.op = "caller"  -> One(e, e.k + 1, Both)
                     [] e.op = "callerf" -> One(e, e.k + 1, SameFunc)
                     [] e.op = "callerl" -> One(e, e.k + 1, SameLine)
                     [] e.op = "bts"     -> List(e, 0) /\ \A i \in 1..Len(e.fs) : e.fs[i].num = i - 1
                     [] e.op = "list"    -> List(e, e.k)
                     [] e.op = "assert"  -> /\ e.pan = ~e.c /\ (e.c => e.r)
                                            /\ (e.pan /\ Len(e.fs) < MaxList => EndsWith(Frs(e.fs), At(e.ln)))
                                            /\ (e.pan => e.fs # <<>>)
                     [] OTHER -> FALSE
TraceInit == KitInit /\ stack = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED stack)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, stack>>
=============================================================================
