------------------------------ MODULE TraceKit ------------------------------
(* Common part of the trace specifications. A trace file holds one recorded   *)
(* history of the real code per line (a JSON array of events). Every history  *)
(* is an initial state; each step consumes one event. A history that the      *)
(* specification cannot follow deadlocks, which is how TLC rejects it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l      \* which history, next event

Ev   == Traces[tr][l]
More == l <= Len(Traces[tr])
KitInit == tr \in 1..Len(Traces) /\ l = 1
KitNext == More /\ l' = l + 1 /\ tr' = tr
KitDone == ~More /\ UNCHANGED <<tr, l>>
NoPanic(e) == e.p = 0
\* a long list of numbers recorded as runs <<first, step, count>>
RECURSIVE OfRuns(_)
OfRuns(rs) == IF rs = <<>> THEN <<>>
              ELSE [i \in 1..rs[1][3] |-> rs[1][1] + ((i - 1) * rs[1][2])] \o OfRuns(Tail(rs))
=============================================================================
