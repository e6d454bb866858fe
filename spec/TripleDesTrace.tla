--------------------------- MODULE TripleDesTrace ---------------------------
EXTENDS TripleDes, TraceKit
FixedKey == <<97,99,54,52,51,55,49,56,45,57,55,51,48,45,101,55,49,49,45,53,57,50,49,48>>
BS == 8
\* e.facts: what the standard library's DES does: records [e: encryption?, k, x, y], three per block, in the order they are used
Facts(e, i, n) == e.facts[3 * (i - 1) + n]
Chain(e, src, dst, key, enc) ==
  /\ Len(dst) = Len(src) /\ Whole(src, BS) /\ Len(e.facts) = 3 * Count(src, BS)
  /\ \A i \in 1..Count(src, BS) : LET f == Facts(e, i, 1) g == Facts(e, i, 2) h == Facts(e, i, 3) IN
       /\ f.x = Block(src, i, BS) /\ g.x = f.y /\ h.x = g.y /\ h.y = Block(dst, i, BS)
       /\ f.e = enc /\ g.e = ~enc /\ h.e = enc
       /\ f.k = Sub(key, IF enc THEN 1 ELSE 3, BS) /\ g.k = Sub(key, 2, BS) /\ h.k = Sub(key, IF enc THEN 3 ELSE 1, BS)
EncOk(e) == e.ok /\ Chain(e, Pad(e.m, BS), e.out, e.key, TRUE) /\ e.in = e.in2 /\ e.kin = e.kin2
\* e.whole: the blocks before the zeros at the end are taken away, according to the facts
Plain(e) == Cat([i \in 1..(Len(e.facts) \div 3) |-> Facts(e, i, 3).y])
DecOk(e, c, key) == IF ~Whole(c, BS) THEN ~e.ok /\ e.out = <<>>
                    ELSE e.ok /\ Chain(e, c, Plain(e), key, FALSE) /\ e.out = Strip(Plain(e))
EncodeOk(e) == Chain(e, Pad(e.m, BS), e.bin, FixedKey, TRUE) /\ e.text = B64(e.bin)
DecodeOk(e) == IF ~IsB64(e.text) \/ ~Whole(UnB64(e.text), BS) THEN e.out = <<>>
               ELSE Chain(e, UnB64(e.text), Plain(e), FixedKey, FALSE) /\ e.out = Strip(Plain(e))
\* e.fed, e.dig: some bytes and their SHA-512
Five(m) == LET one == FixedKey \o m \o FixedKey IN one \o one \o one \o one \o one
HashOk(e) == e.fed = Five(e.m) /\ e.out = e.dig /\ e.text = Hex(e.dig)
HexOk(e) == e.text = Hex(e.m)
UnHexOk(e) == IF IsHex(e.text) THEN e.out = UnHex(e.text) ELSE e.out = <<>> /\ e.none
Step(e) == CASE e.op = "enc"    -> EncOk(e) = TRUE
             [] e.op = "dec"    -> (DecOk(e, e.m, e.key) /\ e.in = e.in2 /\ e.kin = e.kin2) = TRUE
             [] e.op = "encode" -> EncodeOk(e) = TRUE
             [] e.op = "decode" -> DecodeOk(e) = TRUE
             [] e.op = "hash"   -> HashOk(e) = TRUE
             [] e.op = "hex"    -> HexOk(e) = TRUE
             [] e.op = "unhex"  -> UnHexOk(e) = TRUE
             [] OTHER -> FALSE
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev)) \/ KitDone
TraceSpec == KitInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
