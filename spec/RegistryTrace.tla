--------------------------- MODULE RegistryTrace ---------------------------
EXTENDS Registry, TraceKit
Inner == 5
RECURSIVE Step(_)
Step(e) ==
  CASE e.op = "add"    -> Add(e.f, e.t, e.c, ~e.err)
    [] e.op = "rem"    -> Remove(e.f, e.t, ~e.err)
    [] e.op = "create" -> /\ e.calls = (IF e.r = <<>> THEN 0 ELSE 1)
                          \* a creator may use the registry itself: what it does then happens, and its own creation goes on
                          /\ IF e.has /\ Has(e.f, e.t) /\ reg[e.f][e.t] = Inner
                             THEN Made(e.f, e.t, e.args, e.r) /\ Len(e.in) = 1 /\ Step(e.in[1])
                             ELSE Create(e.f, e.t, e.args, e.r) /\ e.in = <<>>
    [] OTHER -> FALSE
TraceInit == KitInit /\ reg = [f \in Facs |-> Nothing] /\ hist = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ UNCHANGED hist) \/ (KitDone /\ UNCHANGED <<reg, hist>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, reg, hist>>
=============================================================================
