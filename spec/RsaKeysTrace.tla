---------------------------- MODULE RsaKeysTrace ----------------------------
EXTENDS RsaKeys, TraceKit
VARIABLE s
\* pair: a generated pair as the standard library reads it
PairOk(e) == e.ok /\ e.parsed /\ e.size = e.bits /\ e.match
\* e.in, e.in2: the caller's memory before and after
Kept(e) == e.in = e.in2
EncOk(e) == LET i == s.clients[e.c] IN
  /\ Kept(e) /\ e.ok = (Len(e.m) <= Room(s, i))
  /\ (e.ok => e.len = Bytes(s.bits[i]) /\ e.std = e.m /\ e.fresh)
DecOk(e) == Kept(e) /\ IF Opens(s, e.v, e.x, e.alt) THEN e.ok /\ e.out = s.cts[e.x].m
                       ELSE ~e.ok \/ e.out /= s.cts[e.x].m \/ Len(s.cts[e.x].m) < 2
SignOk(e) == Kept(e) /\ e.ok /\ e.std
VerifyOk(e) == Kept(e) /\ e.ok = Accepts(s, e.c, e.x, e.m, e.h, e.alt)
Step(e) ==
  CASE e.op = "start"  -> s' = Empty
    [] e.op = "pair"   -> PairOk(e) = TRUE /\ s' = [s EXCEPT !.bits = Append(@, e.bits)]
    [] e.op = "client" -> e.ok = CanClient(s, e.i, e.form) /\ e.must = e.ok /\ s' = NewClient(s, e.i, e.form)
    [] e.op = "server" -> e.ok = CanServer(s, e.i, e.form) /\ e.must = e.ok /\ s' = NewServer(s, e.i, e.form)
    [] e.op = "enc"    -> EncOk(e) = TRUE /\ s' = IF e.ok THEN Encrypted(s, e.c, e.m) ELSE s
    [] e.op = "dec"    -> DecOk(e) = TRUE /\ UNCHANGED s
    [] e.op = "sign"   -> SignOk(e) = TRUE /\ s' = Signed(s, e.v, e.m, e.h)
    [] e.op = "verify" -> VerifyOk(e) = TRUE /\ UNCHANGED s
    [] OTHER -> FALSE
TraceInit == KitInit /\ s = Empty
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ (KitDone /\ UNCHANGED s)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, s>>
=============================================================================
