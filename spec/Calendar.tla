------------------------------ MODULE Calendar ------------------------------
(* The civil calendar as GPSTk counts it: day 0 is 1 January 4713 BC (year     *)
(* -4713), Julian calendar up to 4 October 1582, Gregorian from 15 October     *)
(* 1582, and no year 0.  A calendar state is <<year, month, day>>; NextDay is   *)
(* the transition, and DayNo/FromDayNo are its closed forms (CalendarMC checks  *)
(* that they agree with walking day by day).                                    *)
EXTENDS Integers, Sequences

Astro(y) == IF y < 0 THEN y + 1 ELSE y          \* astronomical year number
NextYear(y) == IF y = -1 THEN 1 ELSE y + 1

IsLeap(y) ==
  LET a == Astro(y) IN
  IF a <= 1582 THEN a % 4 = 0 ELSE a % 4 = 0 /\ (a % 100 # 0 \/ a % 400 = 0)

MonthLast(y, m) ==
  CASE m \in {1,3,5,7,8,10,12} -> 31
    [] m \in {4,6,9,11} -> 30
    [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

IsDate(y, m, d) ==
  /\ y # 0 /\ m \in 1..12 /\ d \in 1..MonthLast(y, m)
  /\ ~(y = 1582 /\ m = 10 /\ d \in 5..14)

\* the next day
NextDay(c) ==
  IF c = <<1582,10,4>> THEN <<1582,10,15>>
  ELSE IF c[3] < MonthLast(c[1], c[2]) THEN <<c[1], c[2], c[3]+1>>
  ELSE IF c[2] < 12 THEN <<c[1], c[2]+1, 1>>
  ELSE <<NextYear(c[1]), 1, 1>>

\* days before month m in a year, for a calendar with leap rule lp
Cum(m, lp) == <<0,31,59,90,120,151,181,212,243,273,304,334>>[m] + (IF lp /\ m > 2 THEN 1 ELSE 0)

Gregorian(y, m, d) == y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d >= 15)))

JulianNo(y, m, d) ==
  LET a == Astro(y) + 4712 IN 365*a + (a + 3) \div 4 + Cum(m, Astro(y) % 4 = 0) + d - 1
GregorianNo(y, m, d) ==
  1721426 + 365*(y-1) + (y-1) \div 4 - (y-1) \div 100 + (y-1) \div 400
   + Cum(m, y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)) + d - 1

DayNo(y, m, d) == IF Gregorian(y, m, d) THEN GregorianNo(y, m, d) ELSE JulianNo(y, m, d)

\* year containing day number n: estimate, then correct
YearOf(n) ==
  LET e == (n * 4) \div 1461 - 4712
      yr(a) == IF a <= 0 THEN a - 1 ELSE a
      S == { yr(e - 1), yr(e), yr(e + 1) }
  IN CHOOSE y \in S : DayNo(y,1,1) <= n /\ n < DayNo(NextYear(y),1,1)
MonthOf(n, y) == CHOOSE m \in 1..12 : DayNo(y,m,1) <= n /\ (m = 12 \/ n < DayNo(y,m+1,1))
FromDayNo(n) ==
  LET y == YearOf(n)  m == MonthOf(n, y)
      d0 == n - DayNo(y, m, 1) + 1
  IN <<y, m, IF y = 1582 /\ m = 10 /\ d0 > 4 THEN d0 + 10 ELSE d0>>
DayOfYear(n) == n - DayNo(YearOf(n), 1, 1) + 1
=============================================================================
