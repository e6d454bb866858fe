---------------------------- MODULE SessionTrace ----------------------------
EXTENDS Session, TraceKit
VARIABLE outs      \* every result returned so far; nothing may change them later
Sess == 1..3
\* e.in and e.in2: the caller's memory (with its spare capacity) before and after the call
Kept(e) == e.in = e.in2
Step(e) ==
  CASE e.op = "open"  -> /\ e.err = ~(Len(e.key) \in {16, 24, 32})
                         /\ IF e.err THEN UNCHANGED svars ELSE Open(e.s, SubSeq(e.key, 1, 16))
                         /\ UNCHANGED outs
    [] e.op = "enc"   -> Kept(e) /\ Encrypt(e.s, e.m, e.out, e.inv) /\ outs' = Append(outs, e.out)
    [] e.op = "dec"   -> Kept(e) /\ Decrypt(e.s, e.out) /\ outs' = Append(outs, e.out)
    \* the caller overwrites one of the results it was given
    [] e.op = "fill"  -> outs' = [outs EXCEPT ![e.k] = [i \in 1..Len(@) |-> e.v]] /\ UNCHANGED svars
    [] e.op = "final" -> e.outs = outs /\ UNCHANGED <<svars, outs>>
    [] OTHER -> FALSE
TraceInit == KitInit /\ chain = [s \in Sess |-> <<>>] /\ sent = [s \in Sess |-> <<>>] /\ outs = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED <<svars, outs>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, svars, outs>>
=============================================================================
