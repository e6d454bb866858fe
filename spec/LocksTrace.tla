------------------------------ MODULE LocksTrace ------------------------------
(* Call/return histories of the real lock: S is the set of configurations the *)
(* abstract lock may be in; a history is rejected when S becomes empty.       *)
EXTENDS Locks, TraceKit
VARIABLE S
Step(e) ==
  CASE e.op = "call"  -> Call(S, e.t, e.f)
    [] e.op = "ret"   -> Return(S, e.t, e.f)
    [] e.op = "panic" -> Panic(S, e.t, e.f, e.n)
    [] e.op = "stuck" -> Stuck(S)
    [] e.op = "many"  -> IF e.done = e.k THEN Many(S, e.t, e.f, e.k) ELSE {}
    [] OTHER -> {}
TraceInit == KitInit /\ S = {Idle}
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ LET N == Closure(Step(Ev)) IN N # {} /\ S' = N
             \/ KitDone /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, S>>
=============================================================================
