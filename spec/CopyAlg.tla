------------------------------- MODULE CopyAlg -------------------------------
(* The copy loop against an arbitrary source and arbitrary destinations       *)
(* (every read and write may go wrong once, at any byte). Its steps are steps *)
(* of MultiCopy and it only returns what MultiCopy allows. The decisions of   *)
(* the environment are recorded: each finished behaviour is a test scenario.  *)
EXTENDS MultiCopy, TLC, Json
CONSTANTS MaxBytes, MaxDst, Bufs, MaxReads, Scenarios
VARIABLES pc, buf, n, d, w, ret, reads, fault
avars == <<pc, buf, n, d, w, ret, reads, fault>>
vars == <<cvars, avars>>
NoFault == <<0, 0, "none">>
Init == /\ \E k \in 1..MaxDst : CInit(k)
        /\ buf \in Bufs /\ pc = "read" /\ n = 0 /\ d = 0 /\ w = 0 /\ ret = "-" /\ reads = <<>> /\ fault = NoFault
Zeros == Cardinality({i \in 1..Len(reads) : reads[i] = <<0, "open">>})
AlgRead == /\ pc = "read" /\ Len(reads) < MaxReads
           /\ \E k \in 0..buf, e \in {"open", "eof", "rerr"} :
                /\ pos + k <= MaxBytes /\ (k = 0 /\ e = "open" => Zeros = 0)
                /\ (Len(reads) = MaxReads - 1 => e # "open")
                /\ Read(k, e) /\ n' = k /\ reads' = Append(reads, <<k, e>>)
                /\ IF k > 0 THEN pc' = "write" /\ d' = 1 ELSE pc' = (IF e = "open" THEN "read" ELSE "ret") /\ d' = d
           /\ UNCHANGED <<buf, w, ret, fault>>
AlgWrite == /\ pc = "write"
            /\ \E k \in 0..n, f \in {"none", "err"} :
                 /\ (k < n \/ f # "none") => fault = NoFault
                 /\ Write(d, n, k, f)
                 /\ IF k = n /\ f = "none"
                    THEN /\ fault' = fault
                         /\ IF d = Cardinality(Dsts) THEN pc' = (IF end = "open" THEN "read" ELSE "ret") /\ w' = w + n /\ d' = d
                                                     ELSE d' = d + 1 /\ UNCHANGED <<pc, w>>
                    ELSE /\ pc' = "ret" /\ w' = w + k /\ d' = d
                         /\ fault' = <<d, recv[d] + k, IF f = "none" THEN "short" ELSE IF k = n THEN "errfull" ELSE "err">>
            /\ UNCHANGED <<buf, n, ret, reads>>
AlgRet == /\ pc = "ret" /\ pc' = "done"
          /\ ret' = (IF bad # 0 THEN berr ELSE IF end = "eof" THEN "none" ELSE end)
          /\ UNCHANGED <<cvars, buf, n, d, w, reads, fault>>
Next == AlgRead \/ AlgWrite \/ AlgRet
Spec == Init /\ [][Next]_vars
Prefix == \A i \in Dsts : recv[i] <= pos
RetOk == pc = "done" => MayReturn(w, ret)
MStep == \/ \E k \in 0..MaxBytes, e \in {"open", "eof", "rerr"} : Read(k, e)
         \/ \E i \in Dsts, k, m \in 0..MaxBytes, f \in {"none", "err"} : Write(i, m, k, f)
Refines == [][MStep]_cvars
Emit == Scenarios => (pc' = "done" => PrintT(ToJson(<<(<<"copy", "reader", buf, Cardinality(Dsts), reads, fault>>)>>)))
=============================================================================
