------------------------------- MODULE WeeksMC -------------------------------
(* small radices: the Z-count line and the week/rollover views *)
EXTENDS Weeks
CONSTANTS MaxW, R
VARIABLES z, w
Abs(p) == p[1] * ZWEEK + p[2]
Init == z \in (0..MaxW) \X (0..(ZWEEK-1)) /\ w \in 0..(3*R)
Next == \/ \E n \in -9..9 : /\ ZOk(ZAdd(z, n)) /\ ZAdd(z, n)[1] <= MaxW /\ z' = ZAdd(z, n) /\ UNCHANGED w
        \/ \E e \in 0..2 : w' = SetEpoch(w, e, R) /\ UNCHANGED z
        \/ \E m \in 0..(R-1) : w' = SetMod(w, m, R) /\ UNCHANGED z
Spec == Init /\ [][Next]_<<z, w>>
ZLine == \A n \in -9..9 : Abs(ZAdd(z, n)) = Abs(z) + n
ZDiffLaw == \A q \in (0..MaxW) \X (0..(ZWEEK-1)) :
   Abs(ZDiff(z, q)) = Abs(z) - Abs(q) /\ (ZLt(z, q) <=> Abs(z) < Abs(q))
WeekViews == /\ w = EpochOf(w, R) * R + ModWeek(w, R)
             /\ \A e \in 0..2 : ModWeek(SetEpoch(w, e, R), R) = ModWeek(w, R) /\ EpochOf(SetEpoch(w, e, R), R) = e
             /\ \A m \in 0..(R-1) : EpochOf(SetMod(w, m, R), R) = EpochOf(w, R) /\ ModWeek(SetMod(w, m, R), R) = m
CandUnique == \A lo \in 0..(2*R) : Cardinality(Candidates(w % R, R, lo, lo + R - 1)) = 1
=============================================================================
