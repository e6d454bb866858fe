---------------------------- MODULE TypeKitTrace ----------------------------
EXTENDS TypeKit, TraceKit
VARIABLE cells
\* e.cells: for each object: is it zero, does it hold its sample's value
CellsOk(c, e) == Len(e.cells) = Len(c) /\ \A i \in DOMAIN c : IF c[i].set THEN e.cells[i] = "set" ELSE e.cells[i] = "zero"
Step(e) ==
  CASE e.op = "new"  -> e.ptr /\ e.kept /\ cells' = Made(cells, e.i) /\ CellsOk(cells', e) = TRUE
    [] e.op = "put"  -> cells' = Put(cells, e.n) /\ CellsOk(cells', e) = TRUE
    [] e.op = "same" -> e.r = Same(e.i, e.j) /\ UNCHANGED cells
    [] e.op = "kind" -> e.r = Samples[e.i].k /\ UNCHANGED cells
    [] e.op = "cmp"  -> e.r = (e.i /= Nil /\ Samples[e.i].c) /\ UNCHANGED cells
    [] e.op = "equal" -> e.r = Close(e.i, e.j) /\ UNCHANGED cells
    [] e.op = "cplx" -> e.re = e.i /\ e.im = e.j /\ e.re32 = e.i /\ e.im32 = e.j /\ UNCHANGED cells
    [] OTHER -> FALSE
TraceInit == KitInit /\ cells = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED cells)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, cells>>
=============================================================================
