---------------------------- MODULE DurTextTrace ----------------------------
EXTENDS DurText, TraceKit
Unit(n) == CASE n = "Nanosecond" -> Ns [] n = "Microsecond" -> Us [] n = "Millisecond" -> Ms [] n = "Second" -> Sec
             [] n = "Minute" -> Minute [] n = "Hour" -> Hour [] n = "Day" -> Day [] n = "Week" -> Week
\* e.neg, e.a: the length; e.floats: <<unit, negative?, m, exponent>>
OneOk(e) == /\ e.text = Text(e.neg, e.a) /\ e.std = e.a /\ e.stdneg = e.neg
            /\ \A i \in DOMAIN e.floats : LET f == e.floats[i] IN
                 IF e.a = <<>> THEN f[3] = <<>> ELSE f[2] = e.neg /\ Near(f[3], f[4], e.a, Unit(f[1]))
ReadOk(e) == LET r == Read(e.text) n == Negative(e.text) IN
  IF ~r.ok THEN ~e.ok
  ELSE IF B!Lt(IF n THEN LimitNeg ELSE Limit, r.lo) THEN ~e.ok
  ELSE IF B!Le(r.hi, Limit) \/ (n /\ B!Le(r.hi, LimitNeg))
       THEN e.ok /\ (e.a /= <<>> => e.neg = n) /\ B!Le(r.lo, e.a) /\ B!Le(e.a, r.hi)
  ELSE TRUE
\* a measured length lies between what was measured before and after
SinceOk(e) == e.lo <= e.got /\ e.got <= e.hi
Step(e) == CASE e.op = "one"   -> OneOk(e) = TRUE
             [] e.op = "unit"  -> e.a = Unit(e.name)
             [] e.op = "read"  -> ReadOk(e) = TRUE
             [] e.op = "since" -> SinceOk(e) = TRUE
             [] OTHER -> FALSE
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == KitInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
