----------------------------- MODULE TimeRangeMC -----------------------------
EXTENDS TimeRange
VARIABLES a, b
R == Instants \X Instants \X BOOLEAN \X BOOLEAN
Init == a \in { r \in R : Valid(r) } /\ b \in { r \in R : Valid(r) }
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
\* a proper range covers exactly what membership says
Membership == Proper(a) => \A p \in Line : p \in Points(a) <=> InRange(a, p)
Trichotomy == (Proper(a) /\ Proper(b)) =>
    /\ PriorTo(a, b) \/ After(a, b) \/ Overlaps(a, b)
    /\ ~(PriorTo(a, b) /\ Overlaps(a, b)) /\ ~(After(a, b) /\ Overlaps(a, b)) /\ ~(PriorTo(a, b) /\ After(a, b))
OverlapSymmetric == Overlaps(a, b) <=> Overlaps(b, a)
\* set containment implies the documented end point test
SubsetSound == (Proper(a) /\ Points(a) \subseteq Points(b)) => SubsetOf(a, b)
SubsetOrder == SubsetOf(a, a) /\ ((SubsetOf(a, b) /\ SubsetOf(b, a)) => (a[1] = b[1] /\ a[2] = b[2]))
StrictWeakOrder == /\ ~(Earlier(a, b) /\ Earlier(b, a)) /\ ~Earlier(a, a)
  /\ \A c \in R : /\ (Earlier(a, b) /\ Earlier(b, c)) => Earlier(a, c)
                  /\ Earlier(a, b) => (Earlier(a, c) \/ Earlier(c, b))
=============================================================================
