---------------------------- MODULE TypeKitCheck ----------------------------
EXTENDS TypeKit
VARIABLES i, j
Ix == 0..Len(Samples)
Init == i \in Ix /\ j \in Ix
Step == UNCHANGED <<i, j>>
Spec == Init /\ [][Step]_<<i, j>>
Equivalence == Same(i, i) /\ (Same(i, j) => Same(j, i)) /\ \A m \in Ix : Same(i, j) /\ Same(j, m) => Same(i, m)
KindOfType == (i /= Nil /\ Same(i, j)) => Samples[i].k = Samples[j].k /\ Samples[i].c = Samples[j].c
=============================================================================
