-------------------------------- MODULE Ini --------------------------------
(* The INI reader as a line machine: cur is the section being filled (<<>>    *)
(* before any section), m maps each declared section to its assignments.      *)
(* Text is a sequence of Unicode code points.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NL == 10  Semi == 59  Open == 91  Close == 93  Eq == 61
White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
RECURSIVE FirstIn(_, _), LastIn(_, _)
FirstIn(s, i) == IF i <= Len(s) /\ s[i] \in White THEN FirstIn(s, i + 1) ELSE i
LastIn(s, i) == IF i >= 1 /\ s[i] \in White THEN LastIn(s, i - 1) ELSE i
Trim(s) == SubSeq(s, FirstIn(s, 1), LastIn(s, Len(s)))
\* the lines of a text: the pieces between newlines
Breaks(t) == SetToSortSeq({0, Len(t) + 1} \cup {i \in 1..Len(t) : t[i] = NL}, <)
Lines(t) == LET p == Breaks(t) IN [k \in 1..(Len(p) - 1) |-> SubSeq(t, p[k] + 1, p[k + 1] - 1)]
Empty == [x \in {} |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
FirstEq(s) == LET E == {i \in 1..Len(s) : s[i] = Eq} IN IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : i <= j
IsSection(s) == s[1] = Open /\ s[Len(s)] = Close
\* one line: <<cur, m>> -> <<cur', m'>>
Line(cur, m, raw) ==
  LET s == Trim(raw)
      e == FirstEq(s)
      key == Trim(IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1))
      val == IF e = 0 THEN <<>> ELSE Trim(SubSeq(s, e + 1, Len(s)))
      name == SubSeq(s, 2, Len(s) - 1)
  IN IF s = <<>> \/ s[1] = Semi THEN <<cur, m>>
     ELSE IF IsSection(s) THEN <<name, IF name \in DOMAIN m THEN m ELSE Put(m, name, Empty)>>
     ELSE IF cur = <<>> \/ key = <<>> THEN <<cur, m>>
     ELSE <<cur, Put(m, cur, Put(m[cur], key, val))>>
Parse(t) == FoldLeft(LAMBDA st, x : Line(st[1], st[2], x), <<(<<>>), Empty>>, Lines(t))[2]
\* answers
SetOf(s) == {s[i] : i \in 1..Len(s)}
ListOf(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(S)
Sections(m, s) == ListOf(s, DOMAIN m)
Keys(m, sec, s) == ListOf(s, IF sec \in DOMAIN m THEN DOMAIN m[sec] ELSE {})
Lookup(m, sec, key, def) == IF sec \in DOMAIN m THEN (IF key \in DOMAIN m[sec] THEN m[sec][key] ELSE def) ELSE def
=============================================================================
