----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, TraceKit
\* e.obs[i] = content, len, cap, arena, offset, method forms agree, writeable
Seen(e, m, w) == /\ Len(e.obs) = Len(w)
                 /\ \A i \in 1..Len(w) : LET o == e.obs[i] v == w[i] IN
                      /\ o.c = Content(m, v) /\ o.len = v.len
                      /\ (v.k = "b" => o.cap = v.cap)
                      /\ (v.len > 0 => o.a = v.a /\ o.off = v.off /\ o.w)
                      /\ o.same
                 /\ \A k \in 1..Len(m) : e.mem[k] = m[k]
Step(e) ==
  CASE e.op = "alloc" -> Alloc(e.x, e.n)
    [] e.op = "tos"   -> ToString(e.i)
    [] e.op = "tob"   -> ToBytes(e.i)
    [] e.op = "slice" -> Slice(e.i, e.a, e.b)
    [] e.op = "write" -> Write(e.i, e.a, e.x)
    [] e.op = "grow"  -> Grow(e.i, e.x, e.c, e.t)
    [] e.op = "lit"   -> ~e.w /\ ~e.w2 /\ ~e.w3 /\ e.c = e.x /\ e.len = Len(e.x) /\ e.cap = Len(e.x) /\ UNCHANGED mvars
    \* (large pieces: only where they lie and what is seen through them is recorded)
    [] e.op = "big"   -> /\ e.soff = e.a /\ e.slen = e.b /\ e.eq /\ e.boff = e.a /\ e.blen = e.b /\ e.bcap = e.b
                         /\ e.seen /\ e.back /\ e.w /\ UNCHANGED mvars
    [] e.op = "fresh" -> e.w /\ UNCHANGED mvars
    [] OTHER -> FALSE
TraceInit == KitInit /\ mem = <<>> /\ vs = <<>>
TraceNext == \/ KitNext /\ NoPanic(Ev) /\ Step(Ev) /\ (IF "obs" \in DOMAIN Ev THEN Seen(Ev, mem', vs') = TRUE ELSE TRUE)
             \/ KitDone /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, mvars>>
=============================================================================
