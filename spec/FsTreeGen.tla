----------------------------- MODULE FsTreeGen -----------------------------
(* Histories of file operations.                                              *)
EXTENDS FsTree, Json
CONSTANTS Nm2, MaxDepth, MaxLen, MaxNodes, Links, Pick     \* Pick: parameters at random (simulation)
VARIABLES t, fc, hist
vars == <<t, fc, hist>>
PathsUpTo == UNION {[1..n -> Nm2] : n \in 1..MaxDepth}
Rels == UNION {[1..n -> Nm2 \union {".."}] : n \in 1..2}
Some(S) == IF Pick THEN {RandomElement(S)} ELSE S
\* no link on the way to p
Plain(p) == \A n \in 1..(Len(p) - 1) : ~IsLink(t, SubSeq(p, 1, n))
Inside(p, es) == \A n \in 0..Len(es) : Len(Parent(p)) - Cardinality({i \in 1..n : es[i] = ".."}) + Cardinality({i \in 1..n : es[i] /= ".."}) >= 0
\* every prefix stays inside (Rsl of a prefix never leaves the root)
Stays(p, es) == \A n \in 1..Len(es) : 2 * Cardinality({i \in 1..n : es[i] = ".."}) - n <= Len(p) - 1
OkDest(p, abs, es) == (abs \/ Stays(p, es)) /\ LET q == Dest(p, abs, es) IN Len(q) >= 1 /\ Len(q) <= MaxDepth /\ Plain(q)
Data == {<<<<97, 3>>>>} \union IF Pick THEN {<<>>, <<<<98, 70000>>>>, <<<<98, 2>>, <<0, 1>>>>} ELSE {}
Mode == {493} \union IF Pick THEN {448, 504} ELSE {}
FMode == {438} \union IF Pick THEN {420, 384} ELSE {}
Sizes == IF Pick THEN {0, 2, 5, 66000} ELSE {2}
O0 == [f |-> "", path |-> <<>>, m |-> 0, n |-> 0, data |-> <<>>, abs |-> FALSE, to |-> <<>>, fl |-> <<>>]
Flags == {<<"ro">>, <<"wo">>, <<"rw">>, <<"rw", "trunc">>, <<"rw", "append">>, <<"wo", "append">>, <<"rw", "create">>, <<"wo", "create", "append">>, <<"rw", "create", "append">>,
          <<"rw", "create", "excl">>, <<"wo", "create", "excl">>, <<"wo", "create", "trunc">>, <<"ro", "create">>, <<"rw", "trunc", "append">>, <<"rw", "create", "excl", "trunc">>}
XData == IF Pick THEN Data ELSE {<<<<98, 2>>>>}
Cand ==
  UNION {
    {[O0 EXCEPT !.f = g, !.path = p, !.m = m] : g \in Some({"mkdir", "mkdirall"}), p \in Some(PathsUpTo), m \in Some(Mode)},
    {[O0 EXCEPT !.f = g, !.path = p, !.m = m, !.data = d] : g \in Some({"create", "openfile"}), p \in Some(PathsUpTo), m \in Some(FMode), d \in Some(Data)},
    {[O0 EXCEPT !.f = "openx", !.path = p, !.m = m, !.data = d, !.fl = fl] : p \in Some(PathsUpTo), m \in Some(FMode), d \in Some(XData), fl \in Some(Flags)},
    {[O0 EXCEPT !.f = "truncate", !.path = p, !.n = n] : p \in Some(PathsUpTo), n \in Some(Sizes)},
    {[O0 EXCEPT !.f = "chmod", !.path = p, !.m = m] : p \in Some(PathsUpTo), m \in Some(Mode)},
    {[O0 EXCEPT !.f = g, !.path = p] : g \in Some({"remove", "removeall"}), p \in Some(PathsUpTo)},
    {[O0 EXCEPT !.f = g, !.path = p, !.abs = TRUE, !.to = q] : g \in Some({"rename", "move", "link"}), p \in Some(PathsUpTo), q \in Some(PathsUpTo)},
    {[O0 EXCEPT !.f = g, !.path = p, !.abs = FALSE, !.to = q] : g \in Some({"rename", "move", "link"}), p \in Some(PathsUpTo), q \in Some(Rels)},
    IF Links THEN {[O0 EXCEPT !.f = "symlink", !.path = p, !.abs = FALSE, !.to = q] : p \in Some(PathsUpTo), q \in Some(Rels)} ELSE {},
    IF Links THEN {[O0 EXCEPT !.f = "symlink", !.path = p, !.abs = TRUE, !.to = q] : p \in Some(PathsUpTo), q \in Some(PathsUpTo)} ELSE {} }
Usable(o) ==
  /\ Plain(o.path)
  /\ (o.f \in {"create", "openfile", "openx", "truncate", "chmod", "link", "mkdirall"} => ~IsLink(t, o.path))
  /\ (o.f \in {"rename", "move", "link", "symlink"} => OkDest(o.path, o.abs, o.to))
Nxt ==
  /\ Len(hist) < MaxLen
  /\ \E o \in Cand :
       /\ Usable(o)
       /\ LET r == Apply(t, fc, o) IN
          /\ r.ok \/ ~Pick \/ Len(hist) % 5 = 4
          /\ Cardinality(DOMAIN r.t) <= MaxNodes + 1
          /\ t' = r.t /\ fc' = r.fc
       /\ hist' = Append(hist, o)
Init == t = (<<>> :> DirNode(493)) /\ fc = <<>> /\ hist = <<>>
GenSpec == Init /\ [][Nxt]_vars
View == [p \in DOMAIN t |-> <<t[p].k, t[p].m, t[p].to, IF IsFile(t, p) THEN fc[t[p].i] ELSE <<>>, {q \in DOMAIN t : SameFile(t, p, q)}>>]
\* (opening with flags can give any contents: in the exhaustive search it comes last)
Emit == PrintT(ToJson(hist')) /\ (Pick \/ Last(hist').f /= "openx")
\* the tree stays a tree
Tree == \A p \in DOMAIN t : p /= <<>> => IsDir(t, Parent(p))
NoneLost == [][\A o \in {hist'[Len(hist')]} : o.f \in {"rename", "move"} => Cardinality(DOMAIN t') >= Cardinality(DOMAIN t) - 1]_vars
=============================================================================
