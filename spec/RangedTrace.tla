---------------------------- MODULE RangedTrace ----------------------------
EXTENDS Ranged, TraceKit
Obs(e, v, a, b, lv) == (lv => e.val = v /\ e.lo = a /\ e.hi = b /\ e.same) /\ e.live = lv
Step(e) ==
  CASE e.op = "new"    -> New(e.v, e.a, e.b, ~e.err)
    [] e.op = "init"   -> Init0(e.v, e.a, e.b, ~e.err)
    [] e.op = "set"    -> Set(e.x, e.r, ~e.err)
    [] e.op = "add"    -> AddQ(e.x, e.r, ~e.err)
    [] e.op = "sub"    -> SubQ(e.x, e.r, ~e.err)
    [] e.op = "mul"    -> MulQ(e.x, e.r, ~e.err)
    [] e.op = "div"    -> DivQ(e.x, e.r, ~e.err)
    [] e.op = "mod"    -> ModQ(e.x, e.r, ~e.err)
    [] e.op = "inc"    -> Inc(e.r, ~e.err)
    [] e.op = "dec"    -> Dec(e.r, ~e.err)
    [] e.op = "reset"  -> Reset
    [] e.op = "resetr" -> ResetR
    [] e.op = "in"     -> InRange(e.x, e.r) /\ InCurrent(e.x, e.rc) /\ UNCHANGED vars
    [] OTHER -> FALSE
TraceInit == KitInit /\ val = <<>> /\ lo = <<>> /\ hi = <<>> /\ live = FALSE
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ Obs(Ev, val', lo', hi', live')
             \/ KitDone /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, vars>>
=============================================================================
