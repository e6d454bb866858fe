---------------------------- MODULE RegTableGen ----------------------------
(* Histories of registrations and uses; also checks the table itself: ids     *)
(* stay valid and keep their name, and only Set changes a value.              *)
EXTENDS RegTable, Json
CONSTANTS MaxLen, MaxRegs
VARIABLES s, hist
vars == <<s, hist>>
Names == {"a", "b"}
Vals == {"0", "7"}
Small(r) == Len(Reger(s, r).recs) < 3
Op(o, t) == hist' = Append(hist, o) /\ s' = t
Nxt ==
  /\ Len(hist) < MaxLen
  /\ \/ Len(s.regs) < MaxRegs /\ Op(<<"new", "r">>, New(s, "r"))
     \/ \E r \in 1..Len(s.regs) :
          \/ \E m \in 0..3 : Op(<<"max", r, ToString(m), m>>, SetMax(s, r, m))
          \/ Small(r) /\ \E h \in {"reg", "musto"}, n \in Names : Op(<<"reg", h, r, n, "7">>, Reg(s, r, n, "7"))
          \/ \E n \in 0..2 : Op(<<"id", "set", r, n, "9">>, Set(s, r, n, "9"))
          \/ \E n \in 1..2 : Op(<<"obj", "o", r, n>>, s)
     \/ Op(<<"use", "set", 1, "5">>, s)
Init == s = Start(0) /\ hist = <<>>
GenSpec == Init /\ [][Nxt]_vars
Emit == PrintT(ToJson(hist'))
Bounded == \A k \in 1..Len(s.regs) : Len(s.regs[k].recs) <= s.regs[k].max
Stable == [][\A r \in 1..Len(s.regs) : /\ Len(s.regs[r].recs) <= Len(s'.regs[r].recs)
                                       /\ \A n \in 1..Len(s.regs[r].recs) : s'.regs[r].recs[n].name = s.regs[r].recs[n].name]_vars
=============================================================================
