----------------------------- MODULE RecFileMC -----------------------------
EXTENDS RecFile, TLC, FiniteSets
VARIABLES seen, mode, tries     \* records delivered since open; "w" or "r"
Init == FInit /\ seen = <<>> /\ mode = "w" /\ tries = 0
Put == mode = "w" /\ Len(file) < 3 /\ \E r \in 1..2 : FPut(r) /\ UNCHANGED <<seen, mode, tries>>
Open == FOpen /\ seen' = <<>> /\ mode' = "r" /\ tries' = 0
Damage == mode = "r" /\ bad = {} /\ \E k \in 1..Len(file) : \E c \in BOOLEAN : FDamage(k, c) /\ seen' = <<>> /\ mode' = "r" /\ tries' = 0
HeadA == mode = "r" /\ pos = 0 /\ FHead /\ UNCHANGED <<seen, mode, tries>>
Get == /\ mode = "r" /\ tries < 6 /\ FGet /\ tries' = tries + 1 /\ UNCHANGED mode
       /\ rn' = (IF Outcome = "fail" THEN rn ELSE rn + (IF hread THEN 0 ELSE 1) + (IF CanGet THEN 1 ELSE 0))
       /\ seen' = IF Outcome = "ok" THEN Append(seen, file[pos + 1]) ELSE seen
Next == Put \/ Open \/ Damage \/ HeadA \/ Get
Spec == Init /\ [][Next]_<<fv, seen, mode, tries>>
\* what was delivered is what was written, in order, up to the damage
Prefix == seen = SubSeq(file, 1, pos) /\ Len(seen) = pos
NeverBad == \A k \in bad : pos < k
Count == rn \in {pos, pos + 1} /\ (hread /\ bad = {} => rn = pos + 1)
Stuck == [][Outcome = "fail" /\ mode = "r" /\ mode' = "r" /\ tries' > tries => pos' = pos /\ seen' = seen /\ Outcome' = "fail"]_<<fv, seen, mode, tries>>
=============================================================================
