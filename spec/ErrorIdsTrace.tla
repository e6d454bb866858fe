--------------------------- MODULE ErrorIdsTrace ---------------------------
EXTENDS ErrorIds, TraceKit
VARIABLE st
Base(n) == [n |-> n, names |-> Fixed]
Step(e) ==
  \* e.n ids were handed out by this process before this history
  CASE e.op = "start" -> st' = Base(e.n) /\ e.unknown = 1001 /\ e.standard = 1002
    [] e.op = "do"    -> Fits(st, e) /\ st' = After(st, e)
    [] e.op = "hist"  -> Lin(e.ops, DOMAIN e.ops, Base(e.n)) = TRUE /\ UNCHANGED st
    \* e.k registrations at once from several goroutines: ids (sorted) and number of refusals
    [] e.op = "mass"  -> /\ e.ids = [i \in 1..(IF st.n + e.k > 8997 THEN 8997 - st.n ELSE e.k) |-> Last(st) + i]
                         /\ e.bad = e.k - Len(e.ids) /\ e.wrong = 0
                         /\ st' = [st EXCEPT !.n = st.n + Len(e.ids)]
    [] OTHER -> FALSE
TraceInit == KitInit /\ st = Base(0)
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED st)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, st>>
=============================================================================
