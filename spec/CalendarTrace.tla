---------------------------- MODULE CalendarTrace ----------------------------
(* month: every day of one civil month through both conversion routines.       *)
(* tag:   one instant through every calendar class and back.                    *)
EXTENDS Calendar, Instant, TraceBase
VARIABLE cal          \* first day of the month expected next, or <<>>

UnixDay == 2440588

TInit == cal = <<>> /\ l = 1

DaysIn(y, m) == { d \in 1..MonthLast(y, m) : IsDate(y, m, d) }

MonthOK ==
  LET y == Ev.y m == Ev.m IN
  /\ cal = <<>> \/ cal = <<y, m>>
  /\ \A i \in 1..Len(Ev.d) :
       LET d == Ev.d[i] n == DayNo(y, m, d) IN
       /\ IsDate(y, m, d)
       /\ Ev.n[i] = n                                         \* calendar -> day number
       /\ <<Ev.b[3*i-2], Ev.b[3*i-1], Ev.b[3*i]>> = <<y, m, d>>    \* day number -> calendar
       /\ Ev.j[i] = n - DayNo(y, 1, 1) + 1                         \* day of year
  /\ (1 \in { Ev.d[i] : i \in 1..Len(Ev.d) }) /\ (MonthLast(y,m) \in { Ev.d[i] : i \in 1..Len(Ev.d) })
  /\ Ev.full => Len(Ev.d) = Cardinality(DaysIn(y, m))
  /\ cal' = IF m < 12 THEN <<y, m+1>> ELSE <<NextYear(y), 1>>

NS(a) == NormT(a)
TagOK ==
  LET t == Ev.t   day == t[1]
      c == FromDayNo(day)
      secs == t[2] \div 1000
      Good(x, b, tol) == x.x = "ok" /\ x.s = Ev.s /\ x.bx = "ok" /\ x.bs = Ev.s /\ NearT(NS(x.b), t, tol)
      \* rest of the day after removing whole minutes, as <<0, ms, ns>>
      rest == <<0, t[2] % 60000, t[3]>>
      civ == Ev.civil  yds == Ev.yds  mjd == Ev.mjd  jd == Ev.jd  an == Ev.ansi  ux == Ev.unix  px == Ev.posix
  IN
  /\ Good(civ, 0, 1000)
  /\ <<civ.v[1], civ.v[2], civ.v[3]>> = c
  /\ civ.v[4] = secs \div 3600 /\ civ.v[5] = (secs % 3600) \div 60
  /\ NearT(NS(<<0, civ.v[6], civ.v[7]>>), rest, 2)
  /\ Good(yds, 0, 1000)
  /\ yds.v[1] = c[1] /\ yds.v[2] = DayOfYear(day) /\ NearT(NS(<<0, yds.v[3], yds.v[4]>>), <<0, t[2], t[3]>>, 2)
  /\ Good(mjd, 0, 2000) /\ NearT(NS(mjd.v), <<day - 2400001, t[2], t[3]>>, 2000)
  /\ Good(jd, 0, 2000) /\ NearT(NS(jd.v), t, 2000)
  \* ANSI time: whole seconds, 1970 .. 2^31-1 s
  /\ IF LtT(t, <<UnixDay,0,0>>) \/ LtT(<<UnixDay + 24855, 11647000, 0>>, t)
     THEN an.x = "InvalidRequest"
     ELSE /\ an.x = "ok" /\ an.v = <<day - UnixDay, secs>> /\ an.s = Ev.s
          /\ an.bx = "ok" /\ an.b = <<day, secs * 1000, 0>> /\ an.bs = Ev.s
  /\ IF LtT(t, <<UnixDay,0,0>>) THEN TRUE      \* outside the class's range on 64-bit hosts: unspecified
     ELSE Good(ux, 0, 502) /\ NearT(NS(<<ux.v[1] + UnixDay, ux.v[2]*1000, ux.v[3]*1000>>), t, 502)
          /\ ux.v[3] \in 0..999999
  /\ IF LtT(t, <<UnixDay,0,0>>) \/ LtT(<<UnixDay + 24855, 11647001, 0>>, t)
     THEN px.x = "InvalidRequest"
     ELSE LtT(t, <<UnixDay + 24855, 11647000, 0>>) =>
          /\ Good(px, 0, 2) /\ NearT(NS(<<px.v[1] + UnixDay, px.v[2]*1000 + px.v[3] \div 1000000, px.v[3] % 1000000>>), t, 2)
          /\ px.v[3] \in 0..999999999

\* civil date given by hand: valid iff it is a date of the calendar and a time of day
ValidOK == Ev.x = "ok" =>
   Ev.ok = (IsDate(Ev.v[1], Ev.v[2], Ev.v[3]) /\ Ev.v[4] \in 0..23 /\ Ev.v[5] \in 0..59 /\ Ev.v[6] \in 0..59)

SodOK ==      \* second of day <-> h, m, s
   /\ Ev.h \in 0..23 /\ Ev.mi \in 0..59 /\ Ev.sec[1] \in 0..59999
   /\ NearT(NS(<<0, Ev.h * 3600000 + Ev.mi * 60000 + Ev.sec[1], Ev.sec[2]>>), Ev.t, 2)
   /\ NearT(NS(Ev.back), Ev.t, 2)

\* tags of one class are ordered as the instants they stand for; times further apart than the class's grain
OrdOK ==
   LET a == Ev.a b == Ev.b T(x) == IF x THEN "T" ELSE "F" o == Ev.o IN
   IF Ev.sa = "Any" \/ Ev.sb = "Any" \/ Ev.sa = Ev.sb
   THEN o = <<T(LtT(a,b)), T(LeT(a,b)), T(LtT(b,a)), T(LeT(b,a)), T(a = b), T(a # b)>>
   ELSE /\ \A i \in 1..4 : o[i] = "InvalidRequest"
        /\ o[5] = "F" /\ o[6] \in {"T", "InvalidRequest"}

TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ cal' = <<>>
     \/ Is("month") /\ MonthOK
     \/ Is("tag") /\ TagOK /\ UNCHANGED cal
     \/ Is("valid") /\ ValidOK /\ UNCHANGED cal
     \/ Is("sod") /\ SodOK /\ UNCHANGED cal
     \/ Is("ord") /\ OrdOK /\ UNCHANGED cal
TSpec == TInit /\ [][TNext]_<<cal, l>>
=============================================================================
