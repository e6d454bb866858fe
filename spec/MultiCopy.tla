----------------------------- MODULE MultiCopy -----------------------------
(* Copying one source to several destinations, as seen at their interfaces:   *)
(* pos bytes of the source have been read, recv[d] bytes (always a prefix of  *)
(* them) accepted by destination d. A fault of a destination or of the source *)
(* ends the copy.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pos, recv, end, bad, berr
cvars == <<pos, recv, end, bad, berr>>
CInit(n) == pos = 0 /\ recv = [d \in 1..n |-> 0] /\ end = "open" /\ bad = 0 /\ berr = "none"
Dsts == DOMAIN recv
\* the source delivers n bytes and says open (more may follow), eof or rerr (failed)
Read(n, e) == /\ end = "open" /\ bad = 0 /\ pos' = pos + n /\ end' = e /\ UNCHANGED <<recv, bad, berr>>
\* destination d is offered n bytes starting at its own position, accepts k of them, and reports f
Write(d, n, k, f) == /\ bad = 0 /\ recv[d] + n <= pos
                     /\ recv' = [recv EXCEPT ![d] = @ + k]
                     /\ IF f = "none" /\ k = n THEN UNCHANGED <<bad, berr>>
                        ELSE bad' = d /\ berr' = IF f = "none" THEN "short" ELSE f
                     /\ UNCHANGED <<pos, end>>
\* what the call may return: w bytes written, error e
MayReturn(w, e) == IF bad # 0 THEN e = berr /\ \A d \in Dsts : d < bad => recv[d] = pos
                   ELSE /\ end # "open" /\ \A d \in Dsts : recv[d] = pos
                        /\ e = (IF end = "eof" THEN "none" ELSE end)
                        /\ (e = "none" => w = pos)
=============================================================================
