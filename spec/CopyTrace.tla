----------------------------- MODULE CopyTrace -----------------------------
EXTENDS MultiCopy, TraceKit
\* the source's bytes
Byte(i) == (i * 7 + (i \div 256) * 13) % 256
Right(x, at) == \A i \in 1..Len(x) : x[i] = Byte(at + i - 1)
\* a copy of more bytes than TLC counts: numbers as <<n \div 2^20, n % 2^20>>, the bytes by checksum
Huge(e) == /\ \A i \in 1..3 : e.got[i] = e.n
           /\ e.same = <<TRUE, TRUE>>
           /\ e.e = (IF e.fail THEN "rerr" ELSE "none") /\ (e.fail \/ e.w = e.n)
Step(e) ==
  CASE e.op = "start" -> /\ pos' = 0 /\ recv' = [i \in 1..e.n |-> 0] /\ end' = "open" /\ bad' = 0 /\ berr' = "none"
    [] e.op = "read"  -> Read(e.n, e.e)
    [] e.op = "write" -> Right(e.x, recv[e.d]) = TRUE /\ Write(e.d, Len(e.x), e.k, e.f)
    [] e.op = "ret"   -> MayReturn(e.w, e.e) = TRUE /\ UNCHANGED cvars
    [] e.op = "huge"  -> Huge(e) = TRUE /\ UNCHANGED cvars
    [] OTHER -> FALSE
TraceInit == KitInit /\ CInit(1)
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, cvars>>
=============================================================================
