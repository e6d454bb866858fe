----------------------------- MODULE HashStream -----------------------------
(* Hash objects as streams: the digest is a function of the data written      *)
(* since the last reset. Data is a sequence of chunks <<offset, length>> of a *)
(* fixed byte stream; the fingerprint also has a 48-bit length (6 bytes,      *)
(* big-endian) that can be set explicitly.                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Objs
VARIABLES data,   \* data[o]: chunks written since the last reset
          len     \* len[o]: 48-bit byte count
hvars == <<data, len>>
Zero6 == <<0, 0, 0, 0, 0, 0>>
RECURSIVE AddTo(_, _, _)
AddTo(b, k, n) == IF k = 0 \/ n = 0 THEN b
                  ELSE AddTo([b EXCEPT ![k] = (@ + n) % 256], k - 1, (b[k] + n) \div 256)
Create(o) == data' = [data EXCEPT ![o] = <<>>] /\ len' = [len EXCEPT ![o] = Zero6]
Write(o, a, n) == /\ data' = [data EXCEPT ![o] = IF n = 0 THEN @ ELSE Append(@, <<a, n>>)]
                  /\ len' = [len EXCEPT ![o] = AddTo(@, 6, n)]
Reset(o) == Create(o)
SetLen(o, b6) == len' = [len EXCEPT ![o] = b6] /\ UNCHANGED data
\* the fingerprint digest from the length and the three standard digests
Finger(b6, md5, sha1, crc64) == b6 \o SubSeq(md5, 5, 10) \o SubSeq(sha1, 8, 13) \o SubSeq(crc64, 2, 7)
H == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Hex(_)
Hex(bs) == IF bs = <<>> THEN "" ELSE H[(bs[1] \div 16) + 1] \o H[(bs[1] % 16) + 1] \o Hex(Tail(bs))
FingerText(d) == Hex(SubSeq(d, 1, 6)) \o "-" \o Hex(SubSeq(d, 7, 12)) \o "-" \o Hex(SubSeq(d, 13, 18)) \o "-" \o Hex(SubSeq(d, 19, 24))
Pad10(n) == LET RECURSIVE P(_, _) P(k, m) == IF k = 0 THEN "" ELSE P(k - 1, m \div 10) \o H[(m % 10) + 1] IN P(10, n)

\* ---- generator: abstract histories over two objects --------------------------
CONSTANTS MaxLen
VARIABLE hist
GenInit == data = [o \in Objs |-> <<>>] /\ len = [o \in Objs |-> Zero6] /\ hist = <<>>
GenNext == Len(hist) < MaxLen /\ \E o \in Objs :
  \/ \E n \in {0, 3, 64} : Write(o, 0, n) /\ hist' = Append(hist, <<"write", o, n>>)
  \/ UNCHANGED hvars /\ hist' = Append(hist, <<"sum", o>>)
  \/ Reset(o) /\ hist' = Append(hist, <<"reset", o>>)
GenSpec == GenInit /\ [][GenNext]_<<hvars, hist>>
Emit == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
