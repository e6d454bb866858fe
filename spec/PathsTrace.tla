----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Paths, TraceKit
VARIABLE w          \* working directory
Num(x) == x         \* little-endian base 1024 digits
One(e) == LET c == Clean(e.a) IN
  /\ e.s = c /\ e.s2 = c /\ e.sys = c /\ e.set = c /\ e.fmt = c
  /\ e.dir = DirPart(c) /\ e.file = FilePart(c) /\ e.rdir = DirPart(e.a) /\ e.rfile = FilePart(e.a) /\ e.name = FilePart(e.a)
  /\ e.ext = Ext(c) /\ e.base = Base(c) /\ e.parent = Dir(c) /\ e.all = All(c) /\ e.vol = <<>> /\ e.list = SplitBy(c, Colon)
  /\ e.abs = (IF Rooted(c) THEN c ELSE Joined(<<w, c>>)) /\ ~e.abserr
  /\ (Rooted(c) => e.work = Rel(w, c)) /\ (Rooted(c) /\ Rooted(e.gopath) => e.go = Rel(e.gopath, c))
Two(e) == LET c == Clean(e.a) d == Clean(e.b) IN
  /\ e.join = Joined(<<c, e.b>>) /\ e.joins = Joined(<<c, e.b, e.a>>) /\ e.raw = Joined(<<e.a, e.b>>) /\ e.raw3 = Joined(<<e.a, e.b, e.a>>)
  /\ e.prefix = HasPrefix(c, d)
  /\ (RelDefined(d, c) => e.rel = Rel(d, c) /\ e.rel2 = Rel(d, c))
Step(e) ==
  CASE e.op = "start" -> w' = e.work /\ e.real = e.work /\ e.gopath = Joined(<<e.first, <<115, 114, 99>>>>)
    [] e.op = "one"  -> One(e) = TRUE /\ UNCHANGED w
    [] e.op = "two"  -> Two(e) = TRUE /\ UNCHANGED w
    [] e.op = "none" -> e.s = Dot /\ UNCHANGED w
    [] e.op = "match" -> e.ok = Matches(e.pat, Clean(e.a)) /\ ~e.err /\ UNCHANGED w
    [] e.op = "chdir" -> LET c == IF Rooted(e.a) THEN Clean(e.a) ELSE Joined(<<w, Clean(e.a)>>)
                             t == IF e.exists THEN c ELSE w IN
                         e.err = ~e.exists /\ e.real = t /\ e.work = t /\ w' = t
    \* what the runtime says about the caller
    [] e.op = "line" -> e.file = e.wfile /\ e.line = e.wline /\ e.rline = e.wline + 1 /\ e.rfile = Rel(e.gopath, e.wfile) /\ e.fn = e.wfn /\ UNCHANGED w
    \* e.d: the size in base 1024, least digit first, without leading zeros (<<0>> for zero); e.frac: the three decimals
    [] e.op = "size" -> /\ e.n = e.d /\ e.unit = <<"B", "KB", "MB", "GB", "TB", "PB", "EB">>[Len(e.d)]
                        /\ LET k == Len(e.d)
                               \* the value in 1/1000 of the unit, from the two digits below (exact for fewer digits)
                               lo == IF k >= 2 THEN e.d[k - 1] ELSE 0
                               lo2 == IF k >= 3 THEN e.d[k - 2] ELSE 0
                               below == k >= 4 /\ \E i \in 1..(k - 3) : e.d[i] /= 0
                               num == (lo * 1024 + lo2) * 1000          \* over 1024*1024
                               f == num \div 1048576
                               r == num % 1048576
                               \* digits below lo2 add less than 1000/1048576 of one unit of r
                               up == IF r > 524288 \/ (r = 524288 /\ below) THEN 1
                                     ELSE IF r = 524288 THEN (e.d[k] * 1000 + f) % 2 ELSE 0
                               near == below /\ r < 524288 /\ r + 1000 > 524288
                               v == e.d[k] * 1000 + f + up
                           IN e.val = v \/ (near /\ e.val \in {v, v + 1})
                        /\ UNCHANGED w
    [] OTHER -> FALSE
TraceInit == KitInit /\ w = <<>>
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED w)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, w>>
=============================================================================
