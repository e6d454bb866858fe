-------------------------------- MODULE Locks --------------------------------
(* The abstract (reader/writer) lock with concurrent calls. A call takes      *)
(* effect at some moment between its invocation and its return. A             *)
(* configuration c: w (a writer holds), r (readers inside), pd[t] the call    *)
(* goroutine t is in: "-" none, "L" "U" "RL" "RU" invoked, with "!" taken     *)
(* effect, with "?" refused (will panic).                                     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Threads
Idle == [w |-> 0, r |-> 0, pd |-> [t \in Threads |-> "-"]]
\* what the call of t may do now
Effects(c, t) ==
  CASE c.pd[t] = "L"  -> IF c.w = 0 /\ c.r = 0 THEN {[c EXCEPT !.w = 1, !.pd[t] = "L!"]} ELSE {}
    [] c.pd[t] = "U"  -> IF c.w = 1 THEN {[c EXCEPT !.w = 0, !.pd[t] = "U!"]} ELSE {[c EXCEPT !.pd[t] = "U?"]}
    [] c.pd[t] = "RL" -> IF c.w = 0 THEN {[c EXCEPT !.r = @ + 1, !.pd[t] = "RL!"]} ELSE {}
    [] c.pd[t] = "RU" -> IF c.r > 0 THEN {[c EXCEPT !.r = @ - 1, !.pd[t] = "RU!"]} ELSE {[c EXCEPT !.pd[t] = "RU?"]}
    [] OTHER -> {}
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup UNION {Effects(c, t) : c \in S, t \in Threads} IN IF N = S THEN S ELSE Closure(N)
Call(S, t, f) == Closure({[c EXCEPT !.pd[t] = f] : c \in {x \in S : x.pd[t] = "-"}})
Return(S, t, f) == {[c EXCEPT !.pd[t] = "-"] : c \in {x \in S : x.pd[t] = f \o "!"}}
\* k calls of t in a row, nobody else active: all of them succeed (readers are let in without limit)
Many(S, t, f, k) == {[c EXCEPT !.r = IF f = "RL" THEN @ + k ELSE @ - k] : c \in {x \in S : x.w = 0 /\ x.pd = [u \in Threads |-> "-"] /\ (f = "RU" => x.r >= k)}}
\* a release is refused only when there is nothing to release; waiting gives up only after the spin limit (n
\* operations done), and then without having got the lock
SpinLimit == 16777216
Panic(S, t, f, n) == IF f \in {"U", "RU"} THEN {[c EXCEPT !.pd[t] = "-"] : c \in {x \in S : x.pd[t] = f \o "?"}}
                     ELSE IF n >= SpinLimit THEN {[c EXCEPT !.pd[t] = "-"] : c \in {x \in S : x.pd[t] = f}} ELSE {}
\* nobody moves any more: only acceptable if every pending call waits for something that is really held;
\* a reader may also wait behind a waiting writer
MayWait(c, t) == \/ c.pd[t] = "-"
                 \/ c.pd[t] = "L" /\ (c.w = 1 \/ c.r > 0)
                 \/ c.pd[t] = "RL" /\ (c.w = 1 \/ \E u \in Threads : c.pd[u] = "L")
Stuck(S) == {c \in S : \A t \in Threads : MayWait(c, t)}
\* safety of every configuration the abstract lock can be in
Exclusive(c) == c.w \in {0, 1} /\ c.r >= 0 /\ (c.w = 1 => c.r = 0)
=============================================================================
