------------------------------- MODULE Ranged -------------------------------
(* A ranged unsigned integer: an exact number with bounds. Numbers are BigNat *)
(* digit sequences; Top is the largest number of the machine type.            *)
EXTENDS BigNat, TLC, Json
CONSTANT Top
VARIABLES val, lo, hi, live
vars == <<val, lo, hi, live>>
One == <<1>>
Fits(v, a, b) == Le(a, v) /\ Le(v, b)
Legal == live => Fits(val, lo, hi) /\ Le(hi, Top)
InRange(x, r) == r = Fits(x, lo, hi)
InCurrent(x, r) == r = Fits(x, lo, val)
\* creation and initialisation succeed exactly for lo <= val <= hi
New(v, a, b, ok) == /\ ok = Fits(v, a, b) /\ live' = ok
                    /\ IF ok THEN val' = v /\ lo' = a /\ hi' = b ELSE UNCHANGED <<val, lo, hi>>
Init0(v, a, b, ok) == /\ ok = Fits(v, a, b) /\ UNCHANGED live
                      /\ IF ok THEN val' = v /\ lo' = a /\ hi' = b ELSE UNCHANGED <<val, lo, hi>>
\* r: the previous value, returned on success
Assign(possible, v, r, ok) == /\ ok = (possible /\ Fits(v, lo, hi))
                              /\ IF ok THEN val' = v /\ r = val /\ UNCHANGED <<lo, hi, live>> ELSE UNCHANGED vars
Set(x, r, ok) == Assign(TRUE, x, r, ok)
Inc(r, ok) == Assign(TRUE, Add(val, One), r, ok)
Dec(r, ok) == Assign(val # <<>>, IF val = <<>> THEN val ELSE Sub(val, One), r, ok)
Reset == val' = lo /\ UNCHANGED <<lo, hi, live>>
ResetR == val' = hi /\ UNCHANGED <<lo, hi, live>>
\* queries: the exact result, if there is one and it lies in range
Query(possible, exact, r, ok) == ok = (possible /\ Fits(exact, lo, hi)) /\ (ok => r = exact) /\ UNCHANGED vars
AddQ(x, r, ok) == Query(TRUE, Add(val, x), r, ok)
SubQ(x, r, ok) == Query(Le(x, val), IF Le(x, val) THEN Sub(val, x) ELSE <<>>, r, ok)
MulQ(x, r, ok) == Query(TRUE, Mul(val, x), r, ok)
DivQ(x, r, ok) == Query(x # <<>>, IF x = <<>> THEN <<>> ELSE Quot(val, x), r, ok)
ModQ(x, r, ok) == Query(x # <<>>, IF x = <<>> THEN <<>> ELSE Rem(val, x), r, ok)
=============================================================================
