------------------------------- MODULE Paths -------------------------------
(* Slash-separated paths as byte sequences.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Slash == 47   DotC == 46   Colon == 58   Star == 42   Quest == 63
Dot == <<DotC>>   DotDot == <<DotC, DotC>>   Root == <<Slash>>
\* the parts of p between occurrences of c
SplitBy(p, c) == LET f == FoldLeft(LAMBDA a, x : IF x = c THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                                 ELSE [a EXCEPT !.cur = Append(@, x)],
                                   [done |-> <<>>, cur |-> <<>>], p)
                 IN Append(f.done, f.cur)
JoinWith(es, c) == FoldLeft(LAMBDA a, i : IF i = 1 THEN es[1] ELSE a \o <<c>> \o es[i], <<>>, [i \in 1..Len(es) |-> i])
Rooted(p) == Len(p) > 0 /\ p[1] = Slash
Resolve(rooted, es) ==
  FoldLeft(LAMBDA a, e : IF e = <<>> \/ e = Dot THEN a
                         ELSE IF e = DotDot /\ a /= <<>> /\ Last(a) /= DotDot THEN Front(a)
                         ELSE IF e = DotDot /\ rooted THEN a
                         ELSE Append(a, e), <<>>, es)
Elems(p) == Resolve(Rooted(p), SplitBy(p, Slash))
Text(rooted, es) == IF rooted THEN Root \o JoinWith(es, Slash) ELSE IF es = <<>> THEN Dot ELSE JoinWith(es, Slash)
Clean(p) == Text(Rooted(p), Elems(p))
LastOf(p, c) == LET I == {i \in 1..Len(p) : p[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
DirPart(p) == SubSeq(p, 1, LastOf(p, Slash))
FilePart(p) == SubSeq(p, LastOf(p, Slash) + 1, Len(p))
Ext(p) == LET f == FilePart(p) k == LastOf(f, DotC) IN IF k = 0 THEN <<>> ELSE SubSeq(f, k, Len(f))
\* of a cleaned path
Base(p) == IF p = Root THEN Root ELSE FilePart(p)
Dir(p) == Clean(DirPart(p))
All(p) == IF p = Root THEN <<Root>> ELSE SelectSeq(SplitBy(p, Slash), LAMBDA e : e /= <<>>)
\* joining: empty parts do not count
Joined(ps) == LET ne == SelectSeq(ps, LAMBDA e : e /= <<>>) IN Clean(JoinWith(ne, Slash))
HasPrefix(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
\* from root to p (both cleaned)
RECURSIVE Common(_, _)
Common(a, b) == IF a /= <<>> /\ b /= <<>> /\ Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
RelDefined(root, p) == LET r == Elems(root) k == Common(r, Elems(p)) IN Rooted(root) = Rooted(p) /\ (k < Len(r) => r[k + 1] /= DotDot)
Rel(root, p) == LET r == Elems(root) t == Elems(p) k == Common(r, t) IN
                Text(FALSE, [i \in 1..(Len(r) - k) |-> DotDot] \o SubSeq(t, k + 1, Len(t)))
\* shell patterns with * and ? (neither matches a slash)
RECURSIVE Matches(_, _)
Matches(pat, s) ==
  IF pat = <<>> THEN s = <<>>
  ELSE IF Head(pat) = Star THEN Matches(Tail(pat), s) \/ (s /= <<>> /\ Head(s) /= Slash /\ Matches(pat, Tail(s)))
  ELSE s /= <<>> /\ (IF Head(pat) = Quest THEN Head(s) /= Slash ELSE Head(s) = Head(pat)) /\ Matches(Tail(pat), Tail(s))
=============================================================================
