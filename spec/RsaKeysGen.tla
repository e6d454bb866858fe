----------------------------- MODULE RsaKeysGen -----------------------------
(* Every operation from every small state.                                    *)
EXTENDS RsaKeys, TLC, Json
CONSTANTS Msgs, Hashes, MaxObj, MaxLen
VARIABLES s, hist, last
Alts == {"no", "flip", "cut", "more"}
vars == <<s, hist, last>>
Do(op, t) == s' = t /\ last' = op /\ hist' = Append(hist, op)
Init == s = [Empty EXCEPT !.bits = <<1024, 1024>>] /\ hist = <<>> /\ last = <<>>
Some(q) == 1..Len(q)
GenNext ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in 1..2, f \in ClientForms \union ServerForms \union BadForms : Len(s.clients) < MaxObj /\ Do(<<"client", i, f>>, NewClient(s, i, f))
     \/ \E i \in 1..2, f \in ClientForms \union ServerForms \union BadForms : Len(s.servers) < MaxObj /\ Do(<<"server", i, f>>, NewServer(s, i, f))
     \/ \E c \in Some(s.clients), m \in Msgs : Len(s.cts) < MaxObj /\ Do(<<"enc", c, m>>, Encrypted(s, c, m))
     \/ \E v \in Some(s.servers), x \in Some(s.cts), a \in Alts : Do(<<"dec", v, x, a>>, s)
     \/ \E v \in Some(s.servers), m \in Msgs, h \in Hashes : Len(s.sigs) < MaxObj /\ Do(<<"sign", v, m, h>>, Signed(s, v, m, h))
     \/ \E c \in Some(s.clients), x \in Some(s.sigs), m \in Msgs, h \in Hashes, a \in Alts : Do(<<"verify", c, x, m, h, a>>, s)
GenSpec == Init /\ [][GenNext]_vars
View == <<s, last>>
\* what a pair is for: what was encrypted for a pair is opened by that pair's server and by no other; the same for signatures
Paired == /\ \A v \in Some(s.servers), x \in Some(s.cts) : Opens(s, v, x, "no") <=> s.servers[v] = s.cts[x].key
          /\ \A c \in Some(s.clients), x \in Some(s.sigs) : Accepts(s, c, x, s.sigs[x].m, s.sigs[x].h, "no") <=> s.clients[c] = s.sigs[x].key
          /\ \A c \in Some(s.clients), x \in Some(s.sigs), m \in Msgs, h \in Hashes : Accepts(s, c, x, m, h, "no") => m = s.sigs[x].m /\ H(h) = s.sigs[x].h
Emit == PrintT(ToJson(hist'))
=============================================================================
