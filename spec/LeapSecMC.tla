------------------------------ MODULE LeapSecMC ------------------------------
(* walk the months 1960..2030 *)
EXTENDS LeapSec, FiniteSets, TLC
VARIABLES m, off      \* month, TAI-UTC in whole seconds (0 before 1972)
Init == m = <<1960, 1>> /\ off = 0
Next == /\ Before(m, <<2030, 12>>)
        /\ m' = NextMonth(m)
        /\ off' = IF m' = <<1972,1>> THEN 10
                  ELSE IF off > 0 /\ m \in LeapInsert THEN off + 1 ELSE off
Spec == Init /\ [][Next]_<<m, off>>
StepsMatchClosedForm == off > 0 => off = TaiUtc(m)
FinalValue == Before(<<2016,12>>, m) => off = 37
GpsEra == m = <<1980,1>> => off = 19       \* why GPS = TAI - 19 s
BdtEra == m = <<2006,1>> => off = 33       \* why BDT = TAI - 33 s
\* just before 1972 the drifting offset reaches 9.89 s, closed by the 0.107758 s step to 10 s
PreContinuity == m = <<1971,12>> => PreValue(1971,12,31,0) + 25920 + 1077580 = 10*S1
TdbSmall == LET v == TdbMinusTT(m[1], m[2], 15, 500) IN v <= 18000 /\ v >= -18000
=============================================================================
