------------------------------- MODULE IniGen -------------------------------
(* Texts by characters (Mode "chars": every text up to MaxLen over Chars) or  *)
(* by lines (Mode "lines": every sequence of the representative lines), fed   *)
(* to the line machine as they grow. Checks the reader's laws on the way.     *)
EXTENDS Ini, TLC, Json
CONSTANTS Mode, MaxLen, Chars
VARIABLES text, n, cur, m
a == 97  b == 98  sp == 32
Reps == {<<>>, <<a>>, <<a, Eq>>, <<a, Eq, b>>, <<sp, a, sp, Eq, sp, b, sp>>, <<b, Eq, a, Eq, b>>, <<Eq, a>>, <<a, sp, b>>,
         <<Semi, a, Eq, b>>, <<a, Eq, Semi>>, <<Open, a, Close>>, <<Open, b, Close>>, <<sp, Open, a, Close, 13>>, <<Open, Close>>,
         <<Open, a>>, <<Open, a, Close, b>>, <<a, Eq, Open, b, Close>>, <<Open, a, Eq, b, Close>>, <<Open>>, <<a, Eq, b, 13>>, <<Open, sp, a, Close>>}
Init == text = <<>> /\ n = 0 /\ cur = <<>> /\ m = Empty
ByChar == \E c \in Chars : text' = Append(text, c) /\ UNCHANGED <<cur, m>>
ByLine == \E x \in Reps : /\ text' = text \o (IF n = 0 THEN <<>> ELSE <<NL>>) \o x
                          /\ LET r == Line(cur, m, x) IN cur' = r[1] /\ m' = r[2]
Next == n < MaxLen /\ n' = n + 1 /\ (IF Mode = "chars" THEN ByChar ELSE ByLine)
Spec == Init /\ [][Next]_<<text, n, cur, m>>
\* reading line by line is the same as parsing the whole text
Incremental == Mode = "lines" => m = Parse(text)
\* a final newline and carriage returns before newlines change nothing
RECURSIVE WithCR(_)
WithCR(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] = NL THEN <<13, NL>> ELSE <<t[1]>>) \o WithCR(Tail(t))
LineEnds == Parse(text) = Parse(Append(text, NL)) /\ Parse(text) = Parse(WithCR(text))
\* names and keys are never blank-padded or empty
Clean == \A s \in DOMAIN m : \A k \in DOMAIN m[s] : k # <<>> /\ Trim(k) = k /\ Trim(m[s][k]) = m[s][k]
Emit == (n' = MaxLen \/ Mode = "chars") => PrintT(ToJson(<<(<<"ini", text'>>)>>))
=============================================================================
