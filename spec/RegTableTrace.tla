--------------------------- MODULE RegTableTrace ---------------------------
EXTENDS RegTable, TraceKit
VARIABLES s, objs       \* objs: what each object kept stands for, <<0, 0>>: nothing
Zero == <<0, 0>>
IdOf(r, n) == IF Valid(s, r, n) THEN <<r, n>> ELSE Zero
Row(x) == LET r == x[1] n == x[2] ok == Valid(s, r, n) IN
  IF ~ok /\ r <= s.base THEN TRUE           \* belongs to an earlier history
  ELSE /\ x[3] = ok /\ x[4] = ok /\ x[6] = ok
       /\ (ok => x[5] = Rec(s, r, n).val /\ x[7] = Rec(s, r, n).name)
       /\ x[8] = IdText(s, r, n) /\ x[9] = IdOf(r, n)
Step(e) ==
  CASE e.op = "start" -> s' = Start(e.n) /\ UNCHANGED objs
    [] e.op = "new" -> e.fail = ~CanNew(s) /\ s' = New(s, e.name) /\ UNCHANGED objs
    [] e.op = "max" -> /\ e.fail = ~CanMax(s, e.r, e.m) /\ (~e.fail => e.v = ToString(e.m))
                       /\ s' = SetMax(s, e.r, e.m) /\ UNCHANGED objs
    [] e.op = "reg" -> /\ e.fail = ~CanReg(s, e.r)
                       /\ (~e.fail => e.id = <<e.r, Len(Reger(s, e.r).recs) + 1>>)
                       /\ s' = Reg(s, e.r, e.name, e.v)
                       /\ objs' = IF e.isobj /\ ~e.fail THEN Append(objs, e.id) ELSE objs
    [] e.op = "mass" -> LET g == Reger(s, e.r)
                            k == IF s.locked THEN 0 ELSE IF Len(g.recs) + e.k > g.max THEN g.max - Len(g.recs) ELSE e.k IN
                        /\ e.ids = [i \in 1..k |-> Len(g.recs) + i] /\ e.bad = e.k - k
                        /\ s' = [s EXCEPT !.regs[e.r - s.base].recs = @ \o [i \in 1..k |-> [name |-> "m" \o ToString(i - 1), val |-> ToString(i - 1)]]]
                        /\ UNCHANGED objs
    [] e.op = "id"  -> /\ Fits(Valid(s, e.r, e.n), At(s, e.r, e.n), e, IdText(s, e.r, e.n))
                       /\ s' = (IF e.f = "set" THEN Set(s, e.r, e.n, e.to) ELSE s) /\ UNCHANGED objs
    [] e.op = "ids" -> e.ids = <<e.r, e.n>> /\ UNCHANGED <<s, objs>>
    [] e.op = "obj" -> e.back = IdOf(e.r, e.n) /\ objs' = Append(objs, IdOf(e.r, e.n)) /\ UNCHANGED s
    [] e.op = "use" -> IF e.k = 0 THEN UNCHANGED <<s, objs>> ELSE
                       LET o == objs[e.k] IN
                       /\ Fits(o /= Zero, At(s, o[1], o[2]), e, IF o = Zero THEN "invalid uint32 object" ELSE IdText(s, o[1], o[2]))
                       /\ s' = (IF e.f = "set" THEN Set(s, o[1], o[2], e.to) ELSE s) /\ UNCHANGED objs
    [] e.op = "grid" -> (\A i \in DOMAIN e.rows : Row(e.rows[i])) = TRUE /\ UNCHANGED <<s, objs>>
    [] e.op = "text" -> e.v = RegerText(e.r, Reger(s, e.r)) /\ UNCHANGED <<s, objs>>
    [] e.op = "show" -> /\ e.head = Head1(s)
                        /\ (s.base = 0 => e.all = All(s) /\ e.whole = Whole(s)) /\ UNCHANGED <<s, objs>>
    [] e.op = "finish" -> s' = [s EXCEPT !.locked = TRUE] /\ UNCHANGED objs
    [] e.op = "hist" -> Lin(e.ops, DOMAIN e.ops, e.r, <<"0", "1">>) = TRUE /\ UNCHANGED <<s, objs>>
    [] OTHER -> FALSE
TraceInit == KitInit /\ s = Start(0) /\ objs = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED <<s, objs>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, s, objs>>
=============================================================================
