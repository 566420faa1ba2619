------------------------------ MODULE RnxNavMC ------------------------------
(* Writing and reading the week of transmission: with a small week, every      *)
(* transmission within half a week of Toe comes back as the same instant.      *)
EXTENDS Integers
CONSTANT W, Weeks
VARIABLES wk, xm, toe, fw, fx, rw, rx, ph
Half == W \div 2
vars == <<wk, xm, toe, fw, fx, rw, rx, ph>>
Init == wk \in 1..Weeks /\ xm \in 0..(W-1) /\ toe \in 0..(W-1) /\ fw = 0 /\ fx = 0 /\ rw = 0 /\ rx = 0 /\ ph = "set"
Write == /\ ph = "set" /\ ph' = "file" /\ UNCHANGED <<wk, xm, toe, rw, rx>>
         /\ IF xm - toe > Half THEN fw' = wk + 1 /\ fx' = xm - W
            ELSE IF xm - toe < -Half THEN fw' = wk - 1 /\ fx' = xm + W ELSE fw' = wk /\ fx' = xm
Read == /\ ph = "file" /\ ph' = "read" /\ UNCHANGED <<wk, xm, toe, fw, fx>>
        /\ LET x == IF fx < 0 THEN fx + W ELSE fx IN
           /\ rx' = x /\ rw' = (IF x - toe > Half THEN fw - 1 ELSE IF x - toe < -Half THEN fw + 1 ELSE fw)
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Same == ph = "read" => rw * W + rx = wk * W + xm
\* the file's week is the week of the Toe nearest to the transmission
FileWeek == ph # "set" => LET d == (wk * W + xm) - (fw * W + toe) IN d <= Half /\ d >= -Half
=============================================================================
