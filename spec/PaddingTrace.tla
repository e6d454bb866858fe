---------------------------- MODULE PaddingTrace ----------------------------
EXTENDS Padding, TraceKit
\* e.in, e.in2: the caller's memory (data and spare capacity) before and after; e.out: padded; e.back: unpadded again
Right(e) == /\ e.out = Padded(e.kind, e.m, e.bs)
            /\ e.in = e.in2
            /\ e.back = Unpadded(e.kind, e.out)
            /\ (e.kind = "zero" => Strip0(e.m) = e.m) => e.back = e.m
            /\ e.out2 = e.out      \* padding other data afterwards does not disturb the result
Step(e) == CASE e.op = "pad" -> Right(e) = TRUE [] OTHER -> FALSE
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == KitInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
