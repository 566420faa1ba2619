----------------------------- MODULE CalendarMC -----------------------------
(* Walks the calendar day by day and checks the closed forms against the walk. *)
EXTENDS Calendar
CONSTANTS Starts, Span
VARIABLES n, c, k
Dates == <<<<-4713,1,1>>, <<-2,12,1>>, <<1582,9,1>>, <<1599,12,1>>, <<1699,12,1>>, <<1799,6,1>>, <<1899,12,1>>,
           <<1980,1,1>>, <<1999,12,1>>, <<2099,12,1>>, <<4712,1,1>>>>
Init == \E i \in Starts : c = Dates[i] /\ n = DayNo(Dates[i][1], Dates[i][2], Dates[i][3]) /\ k = 0
Next == k < Span /\ k' = k + 1 /\ n' = n + 1 /\ c' = NextDay(c)
Spec == Init /\ [][Next]_<<n, c, k>>
Closed == DayNo(c[1], c[2], c[3]) = n /\ IsDate(c[1], c[2], c[3])
Inverse == FromDayNo(n) = c
Anchors == /\ DayNo(-4713,1,1) = 0 /\ DayNo(1582,10,4) = 2299160 /\ DayNo(1582,10,15) = 2299161
           /\ DayNo(1858,11,17) = 2400001 /\ DayNo(1970,1,1) = 2440588 /\ DayNo(1980,1,6) = 2444245
           /\ DayNo(2000,1,1) = 2451545
=============================================================================
