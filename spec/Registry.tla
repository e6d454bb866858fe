------------------------------ MODULE Registry ------------------------------
(* Factories: reg[f] maps the registered types of factory f to their          *)
(* creators (numbers; 0 is the nil creator). A creation yields the creator    *)
(* and the arguments it was given.                                            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE reg
Has(f, t) == t \in DOMAIN reg[f]
Add(f, t, c, ok) == /\ ok = (c # 0 /\ ~Has(f, t))
                    /\ IF ok THEN reg' = [reg EXCEPT ![f] = (t :> c) @@ @] ELSE UNCHANGED reg
Remove(f, t, ok) == /\ ok = Has(f, t)
                    /\ IF ok THEN reg' = [reg EXCEPT ![f] = [x \in DOMAIN @ \ {t} |-> @[x]]] ELSE UNCHANGED reg
\* r = <<creator, args>> or <<>> for nil
Made(f, t, args, r) == r = (IF Has(f, t) THEN <<reg[f][t], args>> ELSE <<>>)
Create(f, t, args, r) == Made(f, t, args, r) /\ UNCHANGED reg
Nothing == [x \in {} |-> 0]
\* ---- generator
CONSTANTS Facs, Types, Creators, MaxLen
VARIABLE hist
Log(x) == hist' = Append(hist, x)
GenInit == reg = [f \in Facs |-> Nothing] /\ hist = <<>>
GenNext == Len(hist) < MaxLen /\ \E f \in Facs, t \in Types :
  \/ \E c \in Creators \cup {0} : Add(f, t, c, c # 0 /\ ~Has(f, t)) /\ Log(<<"add", f, t, c>>)
  \/ Remove(f, t, Has(f, t)) /\ Log(<<"rem", f, t>>)
  \/ \E r \in {<<>>} \cup {<<c, <<7>>>> : c \in Creators} : Create(f, t, <<7>>, r) /\ Log(<<"create", f, t, <<7>>>>)
GenSpec == GenInit /\ [][GenNext]_<<reg, hist>>
View == reg
Typed == \A f \in Facs : \A t \in DOMAIN reg[f] : reg[f][t] \in Creators
Emit == PrintT(ToJson(hist'))
=============================================================================
