---------------------------- MODULE NumbersTrace ----------------------------
EXTENDS Numbers, TraceKit
Step(e) ==
  CASE e.op = "prime" -> e.r = Prime(e.m, e.b)
    \* a dense range: exactly these numbers from e.a to e.z are reported prime
    [] e.op = "range" -> {x \in e.a..e.z : Prime(x \div 2, x % 2)} = {e.ps[i] : i \in 1..Len(e.ps)}
    [] e.op = "sqrt"  -> Nearest(N(e.m, e.b), Big(e.r)) = TRUE
    [] e.op = "scan"  -> TRUE
    [] OTHER -> FALSE
TraceInit == KitInit
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
