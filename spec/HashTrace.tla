------------------------------ MODULE HashTrace ------------------------------
(* The standard digests of the written data are supplied with the events      *)
(* (e.ref, together with the data they are digests of); the specification     *)
(* checks that this is the data it expects and what must be made of them.     *)
EXTENDS HashStream, TraceKit
VARIABLE meth    \* method name per object
tvars == <<hvars, meth, hist>>
Digest(o, ref) == IF meth[o] = "FINGERPRINT" THEN Finger(len[o], ref.md5, ref.sha1, ref.crc64) ELSE ref.d
Known(m) == m \in {"MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT"}
Same == UNCHANGED hvars /\ meth' = meth
Step(e) ==
  CASE e.op = "new"   -> NoPanic(e) /\ Create(e.o) /\ meth' = [meth EXCEPT ![e.o] = e.m]
    [] e.op = "bad"   -> ~NoPanic(e) /\ Same
    [] e.op = "write" -> NoPanic(e) /\ ~e.err /\ e.r = e.n /\ Write(e.o, e.a, e.n) /\ meth' = meth
    [] e.op = "reset" -> NoPanic(e) /\ Reset(e.o) /\ meth' = meth
    [] e.op = "setlen" -> NoPanic(e) /\ SetLen(e.o, e.b6) /\ meth' = meth
    \* before: the argument; r: the result; keep: an earlier result of some object read again
    [] e.op = "sum"   -> /\ NoPanic(e) /\ Same /\ e.data = data[e.o]
                         /\ e.r = e.b \o Digest(e.o, e.ref) /\ e.keepOK
    [] e.op = "text"  -> /\ NoPanic(e) /\ Same /\ e.data = data[e.o]
                         /\ e.r = FingerText(Digest(e.o, e.ref))
    \* string helpers on a fresh object: n bytes
    [] e.op = "sh"    -> /\ NoPanic(e) /\ Same
                         /\ LET d == IF e.m = "FINGERPRINT" THEN Finger(AddTo(Zero6, 6, e.n), e.ref.md5, e.ref.sha1, e.ref.crc64) ELSE e.ref.d
                            IN e.h = Hex(d) /\ e.hl = Pad10(e.n) \o "-" \o Hex(d)
    [] OTHER -> FALSE
TraceInit == KitInit /\ data = [o \in Objs |-> <<>>] /\ len = [o \in Objs |-> Zero6] /\ hist = <<>> /\ meth = [o \in Objs |-> ""]
TraceNext == \/ KitNext /\ Step(Ev) /\ UNCHANGED hist
             \/ KitDone /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, tvars>>
=============================================================================
