------------------------------ MODULE IniTrace ------------------------------
EXTENDS Ini, TraceKit
Right(e) == LET m == Parse(e.text)
            IN /\ Sections(m, e.secs)
               /\ \A i \in 1..Len(e.keys) : Keys(m, e.keys[i][1], e.keys[i][2])
               /\ \A i \in 1..Len(e.gets) : LET g == e.gets[i] IN g[4] = Lookup(m, g[1], g[2], g[3])
Step(e) == CASE e.op = "ini"  -> e.open = 0 /\ Right(e) = TRUE
             [] e.op = "none" -> e.err
             [] OTHER -> FALSE
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == KitInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
