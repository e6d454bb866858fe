----------------------------- MODULE PathsCheck -----------------------------
(* Laws of the path operations, over all pairs of short paths.                *)
EXTENDS Paths
CONSTANT N
VARIABLES p, q
Alpha == {Slash, DotC, 97}
Init == p = <<>> /\ q = <<>>
Nxt == \/ Len(p) < N /\ q = <<>> /\ \E c \in Alpha : p' = Append(p, c) /\ q' = q
       \/ Len(q) < N /\ \E c \in Alpha : q' = Append(q, c) /\ p' = p
Spec == Init /\ [][Nxt]_<<p, q>>
C == Clean(p)   D == Clean(q)
Idem == Clean(C) = C
NoJunk == C = Root \/ (Last(C) /= Slash /\ \A e \in ToSet(SplitBy(C, Slash)) : (e = <<>> => Rooted(C)) /\ (e = Dot => C = Dot))
Recompose == DirPart(C) \o FilePart(C) = C /\ (C /= Root => Clean(DirPart(C) \o Base(C)) = C)
Parts == Joined(All(C)) = C \/ Rooted(C)
RelBack == RelDefined(D, C) => Joined(<<D, Rel(D, C)>>) = C
RelSelf == Rel(C, C) = Dot
JoinClean == Joined(<<C, D>>) = Joined(<<p, q>>) \/ p = <<>> \/ q = <<>> \/ Rooted(q)
=============================================================================
