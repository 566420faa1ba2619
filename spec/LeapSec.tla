------------------------------- MODULE LeapSec -------------------------------
(* TAI-UTC and the relations between time systems.  Time is walked month by    *)
(* month; since 1972 the offset is a step function that grows by one second at *)
(* each leap second.  Amounts are integers in units of 1e-7 s.                 *)
EXTENDS Calendar, FiniteSets
S1 == 10000000                       \* one second

\* leap seconds inserted at the end of 30 June (6) or 31 December (12)
LeapInsert == {<<1972,6>>, <<1972,12>>, <<1973,12>>, <<1974,12>>, <<1975,12>>, <<1976,12>>, <<1977,12>>,
  <<1978,12>>, <<1979,12>>, <<1981,6>>, <<1982,6>>, <<1983,6>>, <<1985,6>>, <<1987,12>>, <<1989,12>>,
  <<1990,12>>, <<1992,6>>, <<1993,6>>, <<1994,6>>, <<1995,12>>, <<1997,6>>, <<1998,12>>, <<2005,12>>,
  <<2008,12>>, <<2012,6>>, <<2015,6>>, <<2016,12>>}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NextMonth(m) == IF m[2] = 12 THEN <<m[1]+1, 1>> ELSE <<m[1], m[2]+1>>
\* leap seconds in force during month m = <<year, month>>, m >= <<1972,1>>
TaiUtc(m) == 10 + Cardinality({x \in LeapInsert : Before(x, m)})

\* 1960-1971 (IERS): <<year, month, offset, MJD of drift reference, drift per day>>
Pre == << <<1960,1,14178180,37300,12960>>, <<1961,1,14228180,37300,12960>>, <<1961,8,13728180,37300,12960>>,
  <<1962,1,18458580,37665,11232>>, <<1963,11,19458580,37665,11232>>, <<1964,1,32401300,38761,12960>>,
  <<1964,4,33401300,38761,12960>>, <<1964,9,34401300,38761,12960>>, <<1965,1,35401300,38761,12960>>,
  <<1965,3,36401300,38761,12960>>, <<1965,7,37401300,38761,12960>>, <<1965,9,38401300,38761,12960>>,
  <<1966,1,43131700,39126,25920>>, <<1968,2,42131700,39126,25920>> >>
PreRow(m) == Pre[CHOOSE i \in 1..14 : ~Before(m, Pre[i]) /\ (i = 14 \/ Before(m, Pre[i+1]))]
\* f = thousandths of the day
PreValue(y, m, d, f) ==
  LET r == PreRow(<<y,m>>) days == DayNo(y,m,d) - 2400001 - r[4]
  IN r[3] + days * r[5] + (f * r[5]) \div 1000
\* what the library computes: drift counted from the first day of the table entry, day fraction dropped
PreEntryValue(y, m, d) ==
  LET r == PreRow(<<y,m>>) IN r[3] + (DayNo(y,m,d) - DayNo(r[1], r[2], 1)) * r[5]

\* offset of a system from TAI (TAI - system), for the uniform systems
Uniform == [GPS |-> 19*S1, GAL |-> 19*S1, IRN |-> 19*S1, BDT |-> 33*S1, TAI |-> 0, TT |-> -321840000]
Utcs == {"UTC", "GLO"}
Convertible == DOMAIN Uniform \cup Utcs \cup {"TDB"}

\* sine of a whole number of degrees 0..90, times 100000
SinTab == <<0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791, 22495, 24192, 25882,
 27564, 29237, 30902, 32557, 34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947, 48481, 50000, 51504, 52992,
 54464, 55919, 57358, 58779, 60182, 61566, 62932, 64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471,
 76604, 77715, 78801, 79864, 80902, 81915, 82904, 83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879, 90631, 91355,
 92050, 92718, 93358, 93969, 94552, 95106, 95630, 96126, 96593, 97030, 97437, 97815, 98163, 98481, 98769, 99027, 99255,
 99452, 99619, 99756, 99863, 99939, 99985, 100000>>
Sin90(m) == LET k == m \div 1000 IN     \* m in 0..90000 thousandths of a degree
   IF k = 90 THEN 100000 ELSE SinTab[k+1] + ((SinTab[k+2] - SinTab[k+1]) * (m % 1000)) \div 1000
Sin(m) == LET a == m % 360000 IN
   IF a <= 90000 THEN Sin90(a) ELSE IF a <= 180000 THEN Sin90(180000 - a)
   ELSE IF a <= 270000 THEN -Sin90(a - 180000) ELSE -Sin90(360000 - a)
\* days since J2000 (noon), whole days n and thousandths f, at midnight n - 0.5
Angle(base, whole, frac, n, f) == (base + whole * n + (frac * n) \div 10000 + (whole * (f - 500)) \div 1000) % 360000
\* TDB - TT in 1e-7 s (Astronomical Almanac B7); days run from J2000 = day number 2451545
TdbTerms(y, m, d, f, amp) ==
  LET n == DayNo(y,m,d) - 2451545 IN
  (amp * Sin(Angle(357530, 985, 6003, n, f))) \div 100000 + (220 * Sin(Angle(246110, 902, 5179, n, f))) \div 100000
TdbMinusTT(y, m, d, f) == TdbTerms(y, m, d, f, 16570)
=============================================================================
