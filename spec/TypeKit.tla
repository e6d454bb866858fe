------------------------------ MODULE TypeKit ------------------------------
(* Values by their types; objects made from samples are cells of their own.   *)
EXTENDS Integers, Sequences, FiniteSets
S(t, k, c) == [t |-> t, k |-> k, c |-> c]     \* type, kind, one of the ordered predeclared types?
Samples == <<
  S("int", 2, TRUE), S("int8", 3, TRUE), S("int16", 4, TRUE), S("int32", 5, TRUE), S("int64", 6, TRUE),
  S("uint", 7, TRUE), S("uint8", 8, TRUE), S("uint16", 9, TRUE), S("uint32", 10, TRUE), S("uint64", 11, TRUE),
  S("float32", 13, TRUE), S("float64", 14, TRUE), S("string", 24, TRUE),
  S("uint8", 8, TRUE), S("int32", 5, TRUE),                                     \* byte, rune
  S("bool", 1, FALSE), S("uintptr", 12, FALSE), S("complex64", 15, FALSE), S("complex128", 16, FALSE),
  S("main.I", 2, FALSE), S("main.J", 2, FALSE), S("main.Str", 24, FALSE), S("main.F", 14, FALSE),
  S("struct", 25, FALSE), S("main.St", 25, FALSE), S("[2]int", 17, FALSE), S("[3]int", 17, FALSE), S("[]int", 23, FALSE), S("[]uint8", 23, FALSE),
  S("map", 21, FALSE), S("*int", 22, FALSE), S("**int", 22, FALSE), S("func", 19, FALSE), S("chan", 18, FALSE), S("chan<-", 18, FALSE), S("*main.St", 22, FALSE), S("int", 2, TRUE),
  \* types of the same name declared in different scopes and packages
  S("main.Twin 1", 25, FALSE), S("main.Num 1", 2, FALSE), S("[]main.Twin 1", 23, FALSE), S("*main.Twin 1", 22, FALSE),
  S("main.Twin 2", 25, FALSE), S("main.Num 2", 2, FALSE), S("[]main.Twin 2", 23, FALSE), S("*main.Twin 2", 22, FALSE),
  S("*html/template.Template", 22, FALSE), S("*text/template.Template", 22, FALSE) >>
Nil == 0
Same(i, j) == IF i = Nil \/ j = Nil THEN i = j ELSE Samples[i].t = Samples[j].t
\* cells: what each object made so far is of and whether it was set
Made(cells, i) == Append(cells, [of |-> i, set |-> FALSE])
Put(cells, n) == [cells EXCEPT ![n].set = TRUE]
\* numbers given as multiples of 2^-30 are equal when they differ by less than 10^-6
Close(a, b) == a - b <= 1073 /\ b - a <= 1073
=============================================================================
