---------------------------- MODULE OrdersTrace ----------------------------
EXTENDS Orders, TraceKit
VARIABLE cs      \* the comparators made so far
Made(o) == cs' = Append(cs, o)
Step(e) ==
  CASE e.op = "name"  -> IF KnownName(e.name) THEN NoPanic(e) /\ Made(OfName(e.name)) ELSE ~NoPanic(e) /\ UNCHANGED cs
    [] e.op = "bool"  -> NoPanic(e) /\ Made(OfBool(e.big))
    [] e.op = "of"    -> NoPanic(e) /\ Made(e.what)          \* Lesser() or Greater() of any comparator, or the constant
    [] e.op = "code"  -> NoPanic(e) /\ Made(OfCode(e.c))
    [] e.op = "hold"  -> NoPanic(e) /\ e.r = OrderHolds(cs[e.c], e.x, e.y) /\ UNCHANGED cs
    [] e.op = "less"  -> NoPanic(e) /\ e.r = Before(e.x, e.y) /\ UNCHANGED cs
    [] e.op = "text"  -> NoPanic(e) /\ e.r = TextOf(cs[e.c]) /\ UNCHANGED cs
    [] OTHER -> FALSE
TraceInit == KitInit /\ cs = <<>>
TraceNext == (KitNext /\ Step(Ev)) \/ (KitDone /\ UNCHANGED cs)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, cs>>
=============================================================================
