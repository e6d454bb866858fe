------------------------------ MODULE RsaKeys ------------------------------
(* Key pairs, clients (public keys) and servers (private keys), symbolically. *)
(* State: [keys, clients, servers: pair indices; cts: [key, m]; sigs:         *)
(* [key, h, m]]. Messages are uninterpreted.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [bits |-> <<>>, clients |-> <<>>, servers |-> <<>>, cts |-> <<>>, sigs |-> <<>>]
Bytes(bits) == (bits + 7) \div 8
Default == "sha512"
H(h) == IF h = "default" THEN Default ELSE h
\* key texts: "pub"/"priv" of pair i, possibly with other text before or after; everything else is not a key
ClientForms == {"pub", "pub-pre", "pub-post"}
ServerForms == {"priv", "priv-pre", "priv-post"}
BadForms == {"junk", "empty", "cut", "flip", "ecpub", "ecpriv", "der-pub", "der-priv", "extra"}
CanClient(s, i, form) == i \in 1..Len(s.bits) /\ form \in ClientForms
CanServer(s, i, form) == i \in 1..Len(s.bits) /\ form \in ServerForms
NewClient(s, i, form) == IF CanClient(s, i, form) THEN [s EXCEPT !.clients = Append(@, i)] ELSE s
NewServer(s, i, form) == IF CanServer(s, i, form) THEN [s EXCEPT !.servers = Append(@, i)] ELSE s
Room(s, i) == Bytes(s.bits[i]) - 11
Encrypted(s, c, m) == [s EXCEPT !.cts = Append(@, [key |-> s.clients[c], m |-> m])]
\* does server v open ciphertext x, altered as told?
Opens(s, v, x, alt) == alt = "no" /\ s.cts[x].key = s.servers[v]
Signed(s, v, m, h) == [s EXCEPT !.sigs = Append(@, [key |-> s.servers[v], h |-> H(h), m |-> m])]
Accepts(s, c, x, m, h, alt) == alt = "no" /\ s.sigs[x] = [key |-> s.clients[c], h |-> H(h), m |-> m]
=============================================================================
