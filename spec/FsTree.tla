------------------------------- MODULE FsTree -------------------------------
(* A directory tree. A path is a sequence of names; the tree maps paths to    *)
(* nodes [k: "d" | "f" | "l", i: identity of a file, to: path a link leads to,*)
(* m: permission bits]; fc maps file identities to contents, contents being   *)
(* run-length encoded: sequences of <<byte, count>>.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
DirNode(m) == [k |-> "d", i |-> 0, to |-> <<>>, m |-> m]
FileNode(i, m) == [k |-> "f", i |-> i, to |-> <<>>, m |-> m]
LinkNode(to) == [k |-> "l", i |-> 0, to |-> to, m |-> 511]
Has(t, p) == p \in DOMAIN t
IsDir(t, p) == Has(t, p) /\ t[p].k = "d"
IsFile(t, p) == Has(t, p) /\ t[p].k = "f"
IsLink(t, p) == Has(t, p) /\ t[p].k = "l"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p      \* q lies strictly below p
Below(t, p) == {q \in DOMAIN t : Under(p, q)}
Kids(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ Under(p, q)}
Restr(f, D) == [x \in D |-> f[x]]
Size(c) == FoldLeft(LAMBDA a, r : a + r[2], 0, c)
\* contents cut or extended with zero bytes to n bytes
RECURSIVE Cut(_, _)
Cut(c, n) == IF n = 0 \/ c = <<>> THEN <<>> ELSE IF c[1][2] >= n THEN <<<<c[1][1], n>>>> ELSE <<c[1]>> \o Cut(Tail(c), n - c[1][2])
Resize(c, n) == IF Size(c) >= n THEN Cut(c, n)
                ELSE IF c /= <<>> /\ Last(c)[1] = 0 THEN Front(c) \o <<<<0, Last(c)[2] + n - Size(c)>>>>
                ELSE c \o <<<<0, n - Size(c)>>>>
\* ---- following links
Nowhere == <<"", "">>
RECURSIVE Real(_, _, _), Walk(_, _, _, _)
Walk(t, at, rest, fuel) ==
  IF at = Nowhere \/ fuel = 0 THEN Nowhere
  ELSE IF rest = <<>> THEN at
  ELSE LET q == Append(at, Head(rest)) IN
       IF ~IsDir(t, at) \/ ~Has(t, q) THEN Nowhere
       ELSE IF t[q].k = "l" THEN Walk(t, Real(t, t[q].to, fuel - 1), Tail(rest), fuel - 1)
       ELSE Walk(t, q, Tail(rest), fuel)
Real(t, p, fuel) == Walk(t, <<>>, p, fuel)
\* ---- operations: [ok, t, fc]
Same(t, fc) == [ok |-> FALSE, t |-> t, fc |-> fc]
Done(t, fc) == [ok |-> TRUE, t |-> t, fc |-> fc]
FreshId(fc) == Cardinality(DOMAIN fc) + 1
Mkdir(t, fc, p, m) == IF IsDir(t, Parent(p)) /\ ~Has(t, p) THEN Done((p :> DirNode(m)) @@ t, fc) ELSE Same(t, fc)
Pres(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
MkdirAll(t, fc, p, m) == IF \A q \in Pres(p) : Has(t, q) => IsDir(t, q)
                         THEN Done([q \in {x \in Pres(p) : ~Has(t, x)} |-> DirNode(m)] @@ t, fc) ELSE Same(t, fc)
Create(t, fc, p, m, c) == IF IsFile(t, p) THEN Done(t, (t[p].i :> c) @@ fc)
                          ELSE IF IsDir(t, Parent(p)) /\ ~Has(t, p)
                          THEN LET i == FreshId(fc) IN Done((p :> FileNode(i, m)) @@ t, (i :> c) @@ fc)
                          ELSE Same(t, fc)
\* opening with flags and writing c. Contents a followed by b; b over the beginning of a
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Last(a)[1] = Head(b)[1] THEN Front(a) \o <<<<Head(b)[1], Last(a)[2] + Head(b)[2]>>>> \o Tail(b) ELSE a \o b
RECURSIVE Drop(_, _)
Drop(c, n) == IF n = 0 \/ c = <<>> THEN c ELSE IF c[1][2] > n THEN <<<<c[1][1], c[1][2] - n>>>> \o Tail(c) ELSE Drop(Tail(c), n - c[1][2])
OpenX(t, fc, p, m, fl, c) ==
  LET F == ToSet(fl)
      old == IF ~IsFile(t, p) \/ "trunc" \in F THEN <<>> ELSE fc[t[p].i]
      new == IF "ro" \in F THEN old ELSE IF "append" \in F THEN Cat(old, c) ELSE Cat(c, Drop(old, Size(c)))
  IN IF IsFile(t, p) THEN IF {"create", "excl"} \subseteq F THEN Same(t, fc) ELSE Done(t, (t[p].i :> new) @@ fc)
     ELSE IF IsDir(t, p) THEN IF F = {"ro"} THEN Done(t, fc) ELSE Same(t, fc)
     ELSE IF "create" \in F /\ IsDir(t, Parent(p)) /\ ~Has(t, p)
     THEN LET i == FreshId(fc) IN Done((p :> FileNode(i, m)) @@ t, (i :> new) @@ fc)
     ELSE Same(t, fc)
Truncate(t, fc, p, n) == IF IsFile(t, p) THEN Done(t, (t[p].i :> Resize(fc[t[p].i], n)) @@ fc) ELSE Same(t, fc)
Chmod(t, fc, p, m) == IF ~Has(t, p) THEN Same(t, fc)
                      ELSE Done([q \in DOMAIN t |-> IF q = p \/ (t[p].k = "f" /\ t[q].k = "f" /\ t[q].i = t[p].i) THEN [t[q] EXCEPT !.m = m] ELSE t[q]], fc)
RemoveOne(t, fc, p) == IF Has(t, p) /\ Kids(t, p) = {} THEN Done(Restr(t, DOMAIN t \ {p}), fc) ELSE Same(t, fc)
RemoveAll(t, fc, p) == IF \A q \in Pres(Parent(p)) : Has(t, q) => IsDir(t, q)
                       THEN Done(Restr(t, {q \in DOMAIN t : q /= p /\ ~Under(p, q)}), fc) ELSE Same(t, fc)
SameFile(t, p, q) == IsFile(t, p) /\ IsFile(t, q) /\ t[p].i = t[q].i
Rename(t, fc, p, q) ==
  IF ~Has(t, p) \/ ~IsDir(t, Parent(q)) \/ IsDir(t, q) \/ (p /= q /\ Under(p, q)) \/ (IsDir(t, p) /\ Has(t, q)) THEN Same(t, fc)
  ELSE IF p = q \/ SameFile(t, p, q) THEN Done(t, fc)
  ELSE LET moved == {x \in DOMAIN t : x = p \/ Under(p, x)}
           new(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
           old(y) == p \o SubSeq(y, Len(q) + 1, Len(y))
       IN Done([y \in ((DOMAIN t \ moved) \union {new(x) : x \in moved}) |-> IF y \in {new(x) : x \in moved} THEN t[old(y)] ELSE t[y]], fc)
Link(t, fc, p, q) == IF IsFile(t, p) /\ IsDir(t, Parent(q)) /\ ~Has(t, q) THEN Done((q :> t[p]) @@ t, fc) ELSE Same(t, fc)
Symlink(t, fc, p, q) == IF IsDir(t, Parent(q)) /\ ~Has(t, q) THEN Done((q :> LinkNode(p)) @@ t, fc) ELSE Same(t, fc)
\* where a destination leads: rel is taken from the directory of p
RECURSIVE Rsl(_, _)
Rsl(at, es) == IF es = <<>> THEN at ELSE IF Head(es) = ".." THEN Rsl(Parent(at), Tail(es)) ELSE Rsl(Append(at, Head(es)), Tail(es))
Dest(p, abs, es) == IF abs THEN es ELSE Rsl(Parent(p), es)
\* the operation described by record o (also used for recorded events)
Apply(t, fc, o) ==
  CASE o.f = "mkdir"    -> Mkdir(t, fc, o.path, o.m)
    [] o.f = "mkdirall" -> MkdirAll(t, fc, o.path, o.m)
    [] o.f = "create"   -> Create(t, fc, o.path, 438, o.data)
    [] o.f = "openfile" -> Create(t, fc, o.path, o.m, o.data)
    [] o.f = "openx"    -> OpenX(t, fc, o.path, o.m, o.fl, o.data)
    [] o.f = "truncate" -> Truncate(t, fc, o.path, o.n)
    [] o.f = "chmod"    -> Chmod(t, fc, o.path, o.m)
    [] o.f = "remove"   -> RemoveOne(t, fc, o.path)
    [] o.f = "removeall" -> RemoveAll(t, fc, o.path)
    [] o.f \in {"rename", "move"} -> Rename(t, fc, o.path, Dest(o.path, o.abs, o.to))
    [] o.f = "link"     -> Link(t, fc, o.path, Dest(o.path, o.abs, o.to))
    [] o.f = "symlink"  -> Symlink(t, fc, o.path, Dest(o.path, o.abs, o.to))
\* ---- listings. o: set of option names
Names == {"dir", "file", "full", "deep", "leaf"}
Nm(o, full, p) == IF "full" \in o THEN full ELSE <<Last(p)>>
RECURSIVE Subs(_, _, _, _)
\* the items below directory p, as a sequence (in some order) of paths or single names; full(q) is written as path q
Subs(t, p, o, top) ==
  LET ks == SetToSeq(Kids(t, p))
      one(q) == IF IsDir(t, q)
                THEN (IF "dir" \in o /\ "leaf" \notin o THEN <<Nm(o, q, q)>> ELSE <<>>)
                     \o (IF "deep" \in o \/ "leaf" \in o THEN Subs(t, q, o, top) ELSE <<>>)
                ELSE IF "file" \in o THEN <<Nm(o, q, q)>> ELSE <<>>
      own == IF {"leaf", "dir"} \subseteq o /\ (\A q \in Kids(t, p) : ~IsDir(t, q))
             THEN <<IF p /= <<>> THEN Nm(o, p, p) ELSE IF "full" \in o THEN <<>> ELSE top>> ELSE <<>>
  IN FoldLeft(LAMBDA a, q : a \o one(q), <<>>, ks) \o own
SameBag(a, b) == Len(a) = Len(b) /\ LET A == ToSet(a) B == ToSet(b) IN A = B /\ (Cardinality(A) = Len(a) \/ \A x \in A :
                   Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x}))
\* directories a listing opens
Opened(t, p, o) == {p} \union IF "deep" \in o \/ "leaf" \in o THEN {q \in Below(t, p) : IsDir(t, q)} ELSE {}
\* ---- counting
DirsIn(t, p) == {q \in Below(t, p) \union {p} : IsDir(t, q)}
OthersIn(t, p) == {q \in Below(t, p) \union {p} : Has(t, q) /\ ~IsDir(t, q)}
\* ---- digests: texts as byte sequences. fdig: file identity -> digest; ddig: pairs <<input, digest>> for directories
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) /= Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
\* the tree below p with every link replaced by what it leads to (Nowhere: a link that leads to nothing)
RECURSIVE Places(_, _, _, _)
Places(t, v, r, fuel) ==
  {<<v, r>>} \union
  IF r = Nowhere \/ fuel = 0 \/ ~IsDir(t, r) THEN {}
  ELSE UNION {Places(t, Append(v, Last(k)), IF IsLink(t, k) THEN Real(t, k, 6) ELSE k, fuel - 1) : k \in Kids(t, r)}
RECURSIVE Total(_, _, _)
Total(t, fc, p) == IF IsDir(t, p) THEN FoldSet(LAMBDA q, a : a + Total(t, fc, q), 0, Kids(t, p)) ELSE Size(fc[t[p].i])
=============================================================================
