------------------------------ MODULE RegTable ------------------------------
(* Registries of named values. A registry hands out the ids <<registry,       *)
(* number>> with numbers 1, 2, .. up to its maximum; values are texts (decimal*)
(* numbers). State: [base, regs, locked], base registries made before.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxRegers == 255
MaxReal == 16777215
DefaultMax == 1024
NoReger == [name |-> "", max |-> 0, recs |-> <<>>]
Start(b) == [base |-> b, regs |-> <<>>, locked |-> FALSE]
Count(s) == s.base + Len(s.regs)
Reger(s, r) == s.regs[r - s.base]
Mine(s, r) == r > s.base /\ r <= Count(s)
Valid(s, r, n) == Mine(s, r) /\ n >= 1 /\ n <= Len(Reger(s, r).recs)
Rec(s, r, n) == Reger(s, r).recs[n]
CanNew(s) == ~s.locked /\ Count(s) < MaxRegers
New(s, name) == IF CanNew(s) THEN [s EXCEPT !.regs = Append(@, [name |-> name, max |-> DefaultMax, recs |-> <<>>])] ELSE s
CanReg(s, r) == ~s.locked /\ Len(Reger(s, r).recs) < Reger(s, r).max
Reg(s, r, name, v) == IF CanReg(s, r) THEN [s EXCEPT !.regs[r - s.base].recs = Append(@, [name |-> name, val |-> v])] ELSE s
CanMax(s, r, m) == m >= 1 /\ m <= MaxReal /\ m >= Len(Reger(s, r).recs)
SetMax(s, r, m) == IF CanMax(s, r, m) THEN [s EXCEPT !.regs[r - s.base].max = m] ELSE s
Set(s, r, n, v) == IF Valid(s, r, n) THEN [s EXCEPT !.regs[r - s.base].recs[n].val = v] ELSE s
RecText(r, n, rec) == "Uint32#(" \o ToString(r) \o "|" \o ToString(n) \o "|" \o rec.name \o ")" \o rec.val
IdText(s, r, n) == IF Valid(s, r, n) THEN RecText(r, n, Rec(s, r, n)) ELSE "invalid Uint32Id#(" \o ToString(r) \o "|" \o ToString(n) \o ")"
RECURSIVE Lines(_, _)
Lines(recs, k) == IF k > Len(recs) THEN "" ELSE "\n#" \o ToString(k) \o " [" \o recs[k].name \o "]: " \o recs[k].val \o Lines(recs, k + 1)
RegerText(r, g) == "[Uint32Reger#" \o ToString(r) \o ": " \o g.name \o "] ids:RangeUint32{val:" \o ToString(Len(g.recs))
                   \o " min:0 max:" \o ToString(g.max) \o "}" \o Lines(g.recs, 1)
Head1(s) == "[Uint32Regers] count:" \o ToString(Count(s))
RECURSIVE Regers(_, _)
Regers(s, k) == IF k > Len(s.regs) THEN "" ELSE "\n" \o RegerText(s.base + k, s.regs[k]) \o Regers(s, k + 1)
All(s) == Head1(s) \o Regers(s, 1)
Whole(s) == "[regable] locked:" \o (IF s.locked THEN "true" ELSE "false") \o "\n" \o All(s)
\* operation e on the value <<r, n>> (of a valid id or object, or of an invalid one)
Fits(ok, rec, e, text) ==
  CASE e.f = "valid" -> e.ok = ok
    [] e.f = "get"   -> e.ok = ok /\ (ok => e.v = rec.val)
    [] e.f = "must"  -> e.ok = ok /\ (ok => e.v = rec.val)
    [] e.f = "set"   -> e.ok = ok /\ (ok => e.v = e.to)
    [] e.f = "name"  -> e.ok = ok /\ (ok => e.v = rec.name)
    [] e.f = "str"   -> e.v = text
    [] OTHER -> FALSE
NoRec == [name |-> "", val |-> ""]
At(s, r, n) == IF Valid(s, r, n) THEN Rec(s, r, n) ELSE NoRec
\* concurrent use of the values vals (texts) of registry r
RECURSIVE Lin(_, _, _, _)
Recs(vals) == <<[name |-> "v0", val |-> vals[1]], [name |-> "v1", val |-> vals[2]]>>
LinFits(o, r, vals) ==
  LET rs == Recs(vals)  k == o.x + 1 IN
  IF o.f = "text" THEN o.v = RegerText(r, [name |-> "shared", max |-> DefaultMax, recs |-> rs])
  ELSE Fits(TRUE, rs[k], o, RecText(r, k, rs[k]))
LinAfter(o, vals) == IF o.f = "set" THEN [vals EXCEPT ![o.x + 1] = o.to] ELSE vals
Lin(ops, left, r, vals) ==
  \/ left = {}
  \/ \E i \in left : /\ \A j \in left : ops[i].call < ops[j].ret
                     /\ LinFits(ops[i], r, vals)
                     /\ Lin(ops, left \ {i}, r, LinAfter(ops[i], vals))
=============================================================================
