---------------------------- MODULE FsTreeTrace ----------------------------
EXTENDS FsTree, TraceKit
VARIABLES t, fc, shut       \* shut: directories and files that cannot be read
Empty == <<>> :> DirNode(493)
\* what the driver found: rows <<path, kind, mode, contents, link path, index of the first row with the same file>>
Dumped(rows, tt, ff) ==
  /\ Len(rows) = Cardinality(DOMAIN tt) - 1
  /\ \A i \in DOMAIN rows : LET r == rows[i] IN
       /\ Has(tt, r[1]) /\ LET n == tt[r[1]] IN
            /\ n.k = r[2]
            /\ (n.k /= "l" => r[3] = n.m)
            /\ (n.k = "f" => r[4] = ff[n.i] /\ r[6] = Min({j \in DOMAIN rows : SameFile(tt, rows[j][1], r[1])}))
            /\ (n.k = "l" => r[5] = n.to)
Built(rows) == LET D == {rows[i][1] : i \in DOMAIN rows}
                   Ix(p) == CHOOSE i \in DOMAIN rows : rows[i][1] = p
               IN [p \in D |-> IF rows[Ix(p)][2] = "d" THEN DirNode(493) ELSE IF rows[Ix(p)][2] = "f" THEN FileNode(Ix(p), 420) ELSE LinkNode(rows[Ix(p)][4])] @@ Empty
BuiltC(rows) == [i \in DOMAIN rows |-> IF rows[i][2] = "f" THEN rows[i][3] ELSE <<>>]
Op(e) == LET r == Apply(t, fc, e) IN
  \* (a directory renamed to itself stays; whether that succeeds depends on how the two paths are written)
  /\ e.ok = r.ok \/ (e.f \in {"rename", "move"} /\ IsDir(t, e.path) /\ Dest(e.path, e.abs, e.to) = e.path)
  /\ Dumped(e.dump, r.t, r.fc)
  \* opened for reading only, nothing can be written; for writing only, nothing read
  /\ (e.ok /\ e.f = "openx" => /\ e.werr = ("ro" \in ToSet(e.fl) /\ (e.data /= <<>> \/ IsDir(t, e.path)))
                             /\ (IsFile(r.t, e.path) => e.read = IF "wo" \in ToSet(e.fl) THEN <<>> ELSE r.fc[r.t[e.path].i]))
  /\ (e.ok /\ e.f \in {"rename", "move", "link", "symlink"} => e.got = Dest(e.path, e.abs, e.to))
Look(e) == LET q == Real(t, e.path, 6) IN
  \* Lstat does not follow, Stat and Open do
  /\ e.lok = Has(t, e.path) /\ (e.lok => e.lk = t[e.path].k /\ (e.lk = "f" => e.lsize = Size(fc[t[e.path].i])))
  /\ e.sok = (q /= Nowhere) /\ (e.sok => e.sk = t[q].k)
  /\ e.rok = (q /= Nowhere /\ t[q].k = "f") /\ (e.rok => e.data = fc[t[q].i])
  /\ e.eok = (q /= Nowhere) /\ (e.eok => e.eval = q)
  /\ e.kok = IsLink(t, e.path) /\ (e.kok => e.link = t[e.path].to)
\* owner and group: Chown follows links, Lchown does not; an unprivileged owner may only keep the owner and choose one of its groups.
\* rows <<path, uid, gid>> of all paths before and after
Self == 65534
Groups == {65533, 65534}
OwnOk(e) ==
  LET par == Real(t, Parent(e.path), 6)
      q == IF e.follow THEN Real(t, e.path, 6)
           ELSE IF par = Nowhere \/ ~IsDir(t, par) \/ ~Has(t, Append(par, Last(e.path))) THEN Nowhere ELSE Append(par, Last(e.path))
      may == e.uid \in {-1, Self} /\ e.gid \in {-1} \union Groups
      hit(p) == q /= Nowhere /\ may /\ (p = q \/ SameFile(t, p, q))
  IN /\ e.ok = (q /= Nowhere /\ may)
     /\ Len(e.before) = Cardinality(DOMAIN t) /\ Len(e.after) = Len(e.before)
     /\ \A i \in DOMAIN e.before : LET b == e.before[i] a == e.after[i] IN
          /\ a[1] = b[1] /\ a[2] = b[2]
          /\ a[3] = IF hit(b[1]) /\ e.gid /= -1 THEN e.gid ELSE b[3]
NewFileOk(e) == LET q == Real(t, e.path, 6) IN e.ok = (q /= Nowhere /\ t[q].k = "f") /\ (e.ok => e.name /\ e.data = fc[t[q].i])
\* a listing of directory e.path with options e.o: e.got are paths (full) or single names, in any order
ListOk(e) == LET o == ToSet(e.o) IN
  IF ~IsDir(t, e.path) \/ Opened(t, e.path, o) \cap shut /= {} THEN ~e.ok
  ELSE e.ok /\ SameBag(e.got, Subs(t, e.path, o, <<e.top>>))
StatOk(e) == LET p == e.path
                 hidden == {q \in Below(t, p) : \E d \in shut : Under(d, q)}
                 lost == {d \in shut \ hidden : IsDir(t, d) /\ (d = p \/ Under(p, d))}
                 D == DirsIn(t, p) \ hidden   F == OthersIn(t, p) \ hidden IN
  IF ~Has(t, p) THEN e.dirs = 0 /\ e.files = 0 /\ e.size = 0 /\ e.info > 0
  ELSE /\ e.dirs \in {Cardinality(D), Cardinality(D) - Cardinality(lost)} /\ e.files = Cardinality(F)
       /\ e.size = FoldSet(LAMBDA q, a : a + (IF IsLink(t, q) THEN e.linklen[CHOOSE i \in DOMAIN e.linklen : e.linklen[i][1] = q][2] ELSE Size(fc[t[q].i])), 0, F)
       /\ (e.info = 0) = (lost = {})
       /\ \A d \in lost : \E i \in DOMAIN e.mention : e.mention[i] = d
\* walking: every node once, parents first; what cannot be read is reported (e.errs). At e.at the caller says to leave the
\* directory out (how = "skip") or to stop ("err"), and gets that back
WalkOk(e) ==
  LET p == e.path
      hidden == {q \in Below(t, p) : \E d \in shut : Under(d, q)} \union IF e.how = "skip" /\ (e.at = p \/ Under(p, e.at)) THEN Below(t, e.at) ELSE {}
      V == (Below(t, p) \union {p}) \ hidden
      lost == {d \in shut : d \in V /\ IsDir(t, d)}
      G == ToSet(e.got)   R == ToSet(e.errs)
  IN IF ~Has(t, p) THEN e.got = <<>> /\ e.errs = <<p>> /\ e.ret = "nil"
     ELSE /\ Cardinality(G) = Len(e.got) /\ Cardinality(R) = Len(e.errs)
          /\ \A i, j \in DOMAIN e.got : Under(e.got[i], e.got[j]) => i < j
          /\ G \subseteq V /\ R \subseteq lost
          /\ IF e.how = "err" /\ e.at \in G THEN Last(e.got) = e.at /\ e.ret = "same" /\ \A q \in V : Under(q, e.at) => q \in G
             ELSE /\ V \ lost \subseteq G /\ e.ret = "nil"
                  /\ lost \ (IF e.how = "skip" THEN {e.at} ELSE {}) \subseteq R
                  /\ (e.how = "err" => e.at \notin V \/ e.at \in lost)
\* ---- a digest of the subtree e.path. e.nodes: rows <<path, size, isdir, digest>> in tree order (node, then its children in order);
\* e.fdig: <<path, digest of its contents>>, e.ddig: <<input, digest>>, as the standard library computes them.
Row(e, p) == CHOOSE r \in ToSet(e.nodes) : r[1] = p
Kin(e, p) == SelectSeq(e.nodes, LAMBDA r : Len(r[1]) = Len(p) + 1 /\ Under(p, r[1]))
\* links are followed: u is the tree with what they lead to in their place
HashOk(e) ==
  LET pl == Places(t, e.path, Real(t, e.path, 6), 60)
      all == {x[1] : x \in pl}
      bad == \E x \in pl : x[2] = Nowhere \/ x[2] \in shut \/ \E d \in shut : Under(d, x[2])
      u == [v \in all |-> t[(CHOOSE x \in pl : x[1] = v)[2]]]
  IN IF bad THEN ~e.ok
     ELSE /\ e.ok
          /\ Len(e.nodes) = Cardinality(all) /\ {e.nodes[i][1] : i \in DOMAIN e.nodes} = all
          /\ e.nodes[1][1] = e.path
          \* depth first, nothing in between
          /\ \A i \in 2..Len(e.nodes) : \E j \in 1..(i - 1) : e.nodes[j][1] = Parent(e.nodes[i][1])
                 /\ \A m \in (j + 1)..(i - 1) : Under(e.nodes[j][1], e.nodes[m][1])
          /\ \A i \in DOMAIN e.nodes : LET r == e.nodes[i] p == r[1] k == Kin(e, p) IN
               /\ r[2] = Total(u, fc, p) /\ r[3] = IsDir(u, p)
               /\ IF IsDir(u, p)
                  THEN /\ \A a \in 1..(Len(k) - 1) : k[a][2] < k[a + 1][2] \/ (k[a][2] = k[a + 1][2] /\ ~SeqLess(k[a + 1][4], k[a][4]))
                       /\ <<FoldLeft(LAMBDA x, y : x \o y[4], <<>>, k), r[2], r[4]>> \in ToSet(e.ddig)
                  ELSE <<p, r[4]>> \in ToSet(e.fdig)
          /\ e.visit = [i \in DOMAIN e.nodes |-> e.nodes[i][1]]
          /\ e.back = [i \in DOMAIN e.nodes |-> e.nodes[Len(e.nodes) + 1 - i][1]]
\* ---- files too large for TLC's numbers, mostly holes: sizes as <<n \div 2^20, n % 2^20>>. e.rows: <<name, size>> of the files
\* in a directory of their own
Meg == 1048576
AddL(a, b) == <<a[1] + b[1] + ((a[2] + b[2]) \div Meg), (a[2] + b[2]) % Meg>>
LessL(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SparseOk(e) ==
  LET total == FoldLeft(LAMBDA a, r : AddL(a, r[2]), <<0, 0>>, e.rows)
      path(i) == <<"sparse", e.rows[i][1]>>
  IN CASE e.skip -> TRUE
       [] ~e.skip /\ e.q = "ops" -> \* Truncate gives the size, Lstat and Stat tell it
            Len(e.ops) = Len(e.rows) /\ \A i \in DOMAIN e.rows : e.ops[i] = <<TRUE, e.rows[i][2], e.rows[i][2], TRUE>>
       [] ~e.skip /\ e.q = "stat" -> e.files = Len(e.rows) /\ e.dirs = 1 /\ e.size = total /\ e.info = 0
       [] OTHER ->
            /\ e.ok /\ Len(e.nodes) = Len(e.rows) + 1
            /\ e.nodes[1][1] = <<"sparse">> /\ e.nodes[1][2] = total /\ e.nodes[1][3]
            /\ \A i \in DOMAIN e.rows : \E j \in 2..Len(e.nodes) :
                 /\ e.nodes[j][1] = path(i) /\ e.nodes[j][2] = e.rows[i][2] /\ ~e.nodes[j][3] /\ <<path(i), e.nodes[j][4]>> \in ToSet(e.fdig)
            /\ \A j \in 2..(Len(e.nodes) - 1) : ~LessL(e.nodes[j + 1][2], e.nodes[j][2])
            /\ e.ddig = <<FoldLeft(LAMBDA x, y : x \o y[4], <<>>, Tail(e.nodes)), e.nodes[1][4]>>
\* mode bits: Chmod gives exactly those asked for, what is new gets them without those of the umask (twin: the same by the
\* operating system; where that does not keep them, the twin counts)
Without(m, u) == FoldSet(LAMBDA b, a : IF (m \div b) % 2 = 1 /\ (u \div b) % 2 = 0 THEN a + b ELSE a, 0, {2 ^ k : k \in 0..11})
ModesOk(e) ==
  /\ e.ok = e.twinok
  /\ e.got = e.twin
  /\ (e.ok /\ e.m < 512 => e.got = CASE e.f \in {"chmod", "chmoddir"} -> e.m [] e.f = "create" -> Without(438, e.umask) [] OTHER -> Without(e.m, e.umask))
Step(e) ==
  CASE e.op = "tree" -> t' = Built(e.rows) /\ fc' = BuiltC(e.rows) /\ shut' = {}
    [] e.op = "do"   -> Op(e) = TRUE /\ LET r == Apply(t, fc, e) IN t' = r.t /\ fc' = r.fc /\ UNCHANGED shut
    [] e.op = "look" -> Look(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "times" -> e.ok = (Real(t, e.path, 6) /= Nowhere) /\ (e.ok => e.got = e.want) /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "own"  -> OwnOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "newfile" -> NewFileOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "list" -> ListOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "stat" -> StatOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "walk" -> WalkOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "hash" -> HashOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "bad"  -> ~e.ok /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "sparse" -> SparseOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "modes" -> ModesOk(e) = TRUE /\ UNCHANGED <<t, fc, shut>>
    [] e.op = "mode" -> Has(t, e.path) /\ t' = Chmod(t, fc, e.path, e.m).t /\ UNCHANGED <<fc, shut>>
    [] e.op = "shut" -> shut' = shut \union {e.path} /\ UNCHANGED <<t, fc>>
    [] e.op = "open" -> shut' = shut \ {e.path} /\ UNCHANGED <<t, fc>>
    [] OTHER -> FALSE
TraceInit == KitInit /\ t = Empty /\ fc = <<>> /\ shut = {}
\* no call leaves a file or directory open
TraceNext == (KitNext /\ NoPanic(Ev) /\ Ev.open = 0 /\ Step(Ev)) \/ (KitDone /\ UNCHANGED <<t, fc, shut>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, t, fc, shut>>
=============================================================================
