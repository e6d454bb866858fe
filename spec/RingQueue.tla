------------------------------ MODULE RingQueue ------------------------------
(* The queue's ring buffer (the deque's ring restricted to back pushes and    *)
(* front pops); refines Queue.                                                *)
EXTENDS RingDeque
QNext == (\E v \in Values : PushBack(v)) \/ PopFront \/ Shrink \/ Clear
QSpec == Init /\ [][QNext]_vars
Q == INSTANCE Queue WITH q <- Contents, cap <- Cap, Caps <- 0..(2 * MaxCap)
QRefines == Q!Spec
Short == Size <= 6
=============================================================================
