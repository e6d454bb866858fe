------------------------------ MODULE ErrorIds ------------------------------
(* The process-wide error registry. Ids are handed out one after the other,   *)
(* from 1001 (unknown error) and 1002 (standard error) on, up to 9999.        *)
(* A state is [n: ids handed out to callers, names: what is known of them].   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinId == 1001   MaxId == 9999   NoId == 1000
Fixed == (1001 :> "unknown error") @@ (1002 :> "standard error")
Last(s) == 1002 + s.n
Valid(s, id) == id >= MinId /\ id <= Last(s)
Known(s, id) == id \in DOMAIN s.names
Full(s) == Last(s) = MaxId
\* registering: the id given and the next state
RegId(s) == IF Full(s) THEN NoId ELSE Last(s) + 1
Reg(s, name) == IF Full(s) THEN s ELSE [n |-> s.n + 1, names |-> ((Last(s) + 1) :> name) @@ s.names]
Invalid(id) == "invalid error id:" \o ToString(id)
Text(s, id) == IF Valid(s, id) THEN "error#" \o ToString(id) \o " (" \o s.names[id] \o ")" ELSE Invalid(id)
TextF(s, id, t) == IF Valid(s, id) THEN Text(s, id) \o ": " \o t ELSE Invalid(id)
\* a listing: the count, then every id in order (o.tail: the lines after the first 2 + o.from)
IsListing(s, o) == /\ o.head = "[errors] Count:" \o ToString(s.n + 2)
                   /\ o.all = s.n + 2 /\ o.first = <<Text(s, 1001), Text(s, 1002)>>
                   /\ Len(o.tail) = s.n - o.from
                   /\ \A i \in 1..Len(o.tail) : Known(s, 1002 + o.from + i) => o.tail[i] = Text(s, 1002 + o.from + i)
\* one operation (record f, and arguments and results) fits state s
Fits(s, o) ==
  CASE o.f = "reg"  -> o.id = RegId(s) /\ o.err = Full(s)
    [] o.f = "get"  -> IF Valid(s, o.id) THEN ~o.err /\ o.name = s.names[o.id] ELSE o.err /\ o.name = ""
    [] o.f = "str"  -> o.text = Text(s, o.id)
    [] o.f = "new"  -> o.text = Text(s, o.id) /\ o.eid = o.id
    [] o.f = "newf" -> o.text = TextF(s, o.id, o.msg) /\ o.eid = o.id
    [] o.f = "std"  -> o.text = TextF(s, 1002, o.msg) /\ o.eid = 1002
    [] o.f = "plain" -> o.text = o.msg
    [] o.f = "show" -> IsListing(s, o)
    [] OTHER -> FALSE
After(s, o) == IF o.f = "reg" THEN Reg(s, o.name) ELSE s
RECURSIVE Lin(_, _, _)
Lin(ops, left, s) ==
  \/ left = {}
  \/ \E i \in left : /\ \A j \in left : ops[i].call < ops[j].ret
                     /\ Fits(s, ops[i])
                     /\ Lin(ops, left \ {i}, After(s, ops[i]))
=============================================================================
