------------------------------- MODULE TimeText -------------------------------
(* The textual language of times.  An instant is <<day, second of day, us>>;     *)
(* every format letter denotes a view of it (Field), a format is a sequence of   *)
(* literals and letters, printing concatenates the views, and scanning a         *)
(* complete set of letters rebuilds the instant down to the format's grain       *)
(* (Rebuild).  Mixed scanning overrides the named parts of an existing instant.  *)
EXTENDS Weeks, Calendar, TLC

UnixDay == 2440588
MonthName == <<"January","February","March","April","May","June","July","August","September","October","November","December">>
MonthAb == <<"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec">>

\* letters of the five week counts: rollovers, full week, short week
WkSys == {"GPS","GAL","BDS","QZS","IRN"}
WkEp(c)   == CASE c = "GPS" -> "E" [] c = "GAL" -> "T" [] c = "BDS" -> "R" [] c = "QZS" -> "V" [] OTHER -> "X"
WkFull(c) == CASE c = "GPS" -> "F" [] c = "GAL" -> "L" [] c = "BDS" -> "D" [] c = "QZS" -> "h" [] OTHER -> "O"
WkMod(c)  == CASE c = "GPS" -> "G" [] c = "GAL" -> "l" [] c = "BDS" -> "e" [] c = "QZS" -> "i" [] OTHER -> "o"
Start(c) == EpochMJD[c] + 2400001
WkDays(t, c) == t[1] - Start(c)
Week(t, c) == WkDays(t, c) \div 7
Dow(t) == (t[1] + 1) % 7                       \* 0 = Sunday; day 2444245 (6 Jan 1980) is one
Zc(t) == Dow(t) * 57600 + (2 * t[2] + (IF t[3] >= 500000 THEN 1 ELSE 0)) \div 3

Has(t, ch) ==                       \* can the instant be expressed in this form
  CASE \E c \in WkSys : ch \in {WkEp(c), WkFull(c), WkMod(c)} ->
         WkDays(t, CHOOSE c \in WkSys : ch \in {WkEp(c), WkFull(c), WkMod(c)}) >= 0
    [] ch \in {"w","g","Z","z","c","C"} -> WkDays(t, "GPS") >= 0
    [] ch \in {"K","U","u","W","N"} -> t[1] >= UnixDay
    [] OTHER -> TRUE

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Pad0(n, w) == LET s == ToString(n) IN Rep("0", w - Len(s)) \o s
\* printf: flag "0" pads with zeros after the sign, "-" pads right, "" pads left
Fill(s, flag, w) ==
  IF flag = "-" THEN s \o Rep(" ", w - Len(s))
  ELSE IF flag = "0" THEN Rep("0", w - Len(s)) \o s ELSE Rep(" ", w - Len(s)) \o s
Dec(i, us) == ToString(i) \o "." \o Pad0(us, 6)
\* day fraction; such letters are printed for multiples of 2700 s only: 1/32 day
Frac(i, n32) == ToString(i) \o "." \o Pad0(n32 * 3125, 5)

SysText(s) ==
  CASE s = "Unknown" -> "UNK" [] OTHER -> s

Letters == {"Y","y","m","b","B","d","H","M","S","f","j","s","w","g","Z","z","c","C","K","U","u","W","N","Q","J","P"}
   \cup UNION { {WkEp(c), WkFull(c), WkMod(c)} : c \in WkSys }

Field(t, sys, ch) ==
  LET c == FromDayNo(t[1]) IN
  CASE ch = "Y" -> ToString(c[1])
    [] ch = "y" -> ToString(c[1] % 100)
    [] ch = "m" -> ToString(c[2])
    [] ch = "b" -> MonthAb[c[2]]
    [] ch = "B" -> MonthName[c[2]]
    [] ch = "d" -> ToString(c[3])
    [] ch = "H" -> ToString(t[2] \div 3600)
    [] ch = "M" -> ToString((t[2] % 3600) \div 60)
    [] ch = "S" -> ToString(t[2] % 60)
    [] ch = "f" -> Dec(t[2] % 60, t[3])
    [] ch = "j" -> ToString(DayOfYear(t[1]))
    [] ch = "s" -> Dec(t[2], t[3])
    [] ch = "w" -> ToString(Dow(t))
    [] ch = "g" -> Dec(Dow(t) * 86400 + t[2], t[3])
    [] ch \in {"Z","z"} -> ToString(Zc(t))
    [] ch = "c" -> ToString((Week(t, "GPS") % 1024) * 524288 + Zc(t))
    [] ch = "C" -> ToString(Week(t, "GPS") * 524288 + Zc(t))
    [] ch \in {"K","U","W"} -> ToString((t[1] - UnixDay) * 86400 + t[2])
    [] ch = "u" -> ToString(t[3])
    [] ch = "N" -> ToString(t[3] * 1000)
    [] ch = "Q" -> Frac(t[1] - 2400001, t[2] \div 2700)
    [] ch = "J" -> IF t[2] < 43200 THEN Frac(t[1] - 1, t[2] \div 2700 + 16) ELSE Frac(t[1], t[2] \div 2700 - 16)
    [] ch = "P" -> SysText(sys)
    [] OTHER ->
        LET k == CHOOSE k \in WkSys : ch \in {WkEp(k), WkFull(k), WkMod(k)} w == Week(t, k) IN
        IF ch = WkFull(k) THEN ToString(w) ELSE IF ch = WkMod(k) THEN ToString(w % Roll(k)) ELSE ToString(w \div Roll(k))

\* ---- what a scan of complete information rebuilds --------------------------
WeekDay(c, w, dow) == Start(c) + 7 * w + dow
FromWeek(c, w, sow, us) == <<WeekDay(c, w, sow \div 86400), sow % 86400, us>>
\* a Z-count is 1.5 s: half seconds carry
FromZ(w, z) == LET h == 3 * (z % 57600) IN <<WeekDay("GPS", w, z \div 57600), h \div 2, (h % 2) * 500000>>
Grain(t, g) ==
  CASE g = "us" -> t
    [] g = "s" -> <<t[1], t[2], 0>>
    [] g = "z" -> FromZ(Week(t, "GPS"), Zc(t))

\* overriding parts of instant t by those of u, least precise first
Override(t, u, L) ==
  LET full == { c \in WkSys : WkFull(c) \in L }
      mod  == { c \in WkSys : WkMod(c) \in L }
      d1 == IF "Y" \in L THEN u[1]
            ELSE IF full # {} THEN LET c == CHOOSE c \in full : TRUE IN WeekDay(c, Week(u, c), Dow(t))
            ELSE IF mod # {} THEN LET c == CHOOSE c \in mod : TRUE IN WeekDay(c, SetMod(Week(t, c), Week(u, c) % Roll(c), Roll(c)), Dow(t))
            ELSE t[1]
      d2 == IF L \cap {"w", "g"} # {} THEN d1 - Dow(<<d1>>) + Dow(u) ELSE d1
      whole == L \cap {"g", "s"} # {}
      h == IF whole \/ "H" \in L THEN u[2] \div 3600 ELSE IF "w" \in L THEN 0 ELSE t[2] \div 3600
      m == IF whole \/ "M" \in L THEN (u[2] % 3600) \div 60 ELSE IF "w" \in L THEN 0 ELSE (t[2] % 3600) \div 60
      s == IF whole \/ L \cap {"S","f"} # {} THEN u[2] % 60 ELSE IF "w" \in L THEN 0 ELSE t[2] % 60
      us == IF whole \/ "f" \in L THEN u[3] ELSE IF L \cap {"S", "w"} # {} THEN 0 ELSE t[3]
  IN <<d2, h * 3600 + m * 60 + s, us>>
=============================================================================
