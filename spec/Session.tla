------------------------------ MODULE Session ------------------------------
(* Encrypted sessions: each has the encrypter's chaining block and the        *)
(* messages sent but not yet decrypted (ciphertexts arrive in order).         *)
EXTENDS Cbc
VARIABLES chain, sent      \* per session
svars == <<chain, sent>>
Open(s, iv) == chain' = [chain EXCEPT ![s] = iv] /\ sent' = [sent EXCEPT ![s] = <<>>]
Encrypt(s, msg, out, inv) == /\ IsCipher(chain[s], msg, out, inv)
                             /\ chain' = [chain EXCEPT ![s] = LastBlock(out)]
                             /\ sent' = [sent EXCEPT ![s] = Append(@, msg)]
Decrypt(s, msg) == /\ sent[s] # <<>> /\ msg = sent[s][1]
                   /\ sent' = [sent EXCEPT ![s] = Tail(@)] /\ UNCHANGED chain
=============================================================================
