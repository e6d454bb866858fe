------------------------------ MODULE LcgTrace ------------------------------
EXTENDS Lcg, TraceKit, SequencesExt
VARIABLE seed      \* seed[g]: state of generator g
Chain(s, n, w) == FoldLeft(LAMBDA acc, i : Append(acc, NextNum(acc[Len(acc)], w)), <<s>>, [i \in 1..n |-> i])
Upper(bs) == \A i \in 1..Len(bs) : bs[i] \in 65..90
Step(e) ==
  CASE e.op = "new"  -> e.r = e.s /\ seed' = (e.g :> e.s) @@ seed
    \* a generator seeded by itself: whatever its state, Seed tells it
    [] e.op = "auto" -> seed' = (e.g :> e.r) @@ seed
    [] e.op = "do"   -> /\ e.r = Result(e.f, seed[e.g], e.a, e.b, e.w)
                        /\ seed' = [seed EXCEPT ![e.g] = After(e.f, seed[e.g], e.a, e.w)]
    \* a concurrent history on a generator seeded with e.s
    [] e.op = "hist" -> Lin(e.ops, DOMAIN e.ops, e.s, e.w) = TRUE /\ UNCHANGED seed
    \* e.n draws shared by several goroutines: the first e.n states, each once (the draws come sorted by step)
    [] e.op = "mass" -> <<e.s>> \o e.rs = Chain(e.s, e.n, e.w) /\ UNCHANGED seed
    [] e.op = "text" -> /\ Len(e.r) = e.n /\ Upper(e.r)
                        /\ e.n >= 5000 => 65..90 = {e.r[i] : i \in 1..e.n}
                        /\ UNCHANGED seed
    [] OTHER -> FALSE
TraceInit == KitInit /\ seed = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED seed)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, seed>>
=============================================================================
