------------------------------ MODULE EphConv ------------------------------
(* What becomes of a navigation record when it is turned into an ephemeris    *)
(* object and back.  An instant is <<week, second of week>>; a record names   *)
(* its clock epoch in full, its orbit epoch by second of week only, and the   *)
(* time of transmission by week and second.                                   *)
EXTENDS Integers, Sequences
WEEK == 604800
HOUR == 3600
AddS(t, n) == LET s == t[2] + n IN <<t[1] + s \div WEEK, s % WEEK>>
NormW(t) == AddS(t, 0)
LtW(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LeW(a, b) == a = b \/ LtW(a, b)
MaxW(a, b) == IF LtW(a, b) THEN b ELSE a
\* the instant with this second of week that is within half a week of t
Near(s, t) ==
  LET d == s - t[2]
  IN  IF 2 * d < -WEEK THEN <<t[1] + 1, s>> ELSE IF 2 * d > WEEK THEN <<t[1] - 1, s>> ELSE <<t[1], s>>
FloorTo(t, n) == <<t[1], t[2] - (t[2] % n)>>
CeilTo(t, n) == IF t[2] % n = 0 THEN t ELSE AddS(t, n - (t[2] % n))

\* GPS curve fit interval in hours from the IODC and the fit interval flag
FitHours(iodc, flag) ==
  IF iodc < 0 \/ iodc > 1023 THEN 4
  ELSE IF flag = 0 THEN 4
  ELSE IF iodc % 256 < 240 THEN 6
  ELSE IF iodc \in 240..247 THEN 8
  ELSE IF iodc \in 248..255 \cup {496} THEN 14
  ELSE IF iodc \in 497..503 \cup 1021..1023 THEN 26
  ELSE IF iodc \in 504..510 THEN 50
  ELSE IF iodc \in 752..756 \cup {511} THEN 74
  ELSE IF iodc \in 757..763 THEN 98
  ELSE IF iodc \in 764..767 \cup 1008..1010 THEN 122
  ELSE IF iodc \in 1011..1020 THEN 146
  ELSE 4
\* a RINEX fit interval is a number of hours, 0 for unknown; 1 is the bare flag
FitFlag(fit) == IF fit = 1 \/ fit > 4 THEN 1 ELSE 0
\* user range accuracy: upper bounds of the classes, in cm; the last has none
URA == <<240, 340, 485, 685, 965, 1365, 2400, 4800, 9600, 19200, 38400, 76800, 153600, 307200, 614400>>
URAIndex(cm) == IF cm > URA[15] THEN 15 ELSE (CHOOSE k \in 1..15 : cm <= URA[k] /\ (k = 1 \/ cm > URA[k-1])) - 1

Toe(r) == Near(r.toe, r.toc)
Hours(r) == IF r.sys = "G" THEN FitHours(r.iodc, FitFlag(r.fit))
            ELSE IF r.sys = "J" THEN (IF r.fit = 0 THEN 2 ELSE 4) ELSE 4
\* version 3 GPS: a clock epoch on the hour fixes the start of transmission
Xmit(r) ==
  IF r.sys = "G" /\ r.v = 3 /\ r.toc[2] % HOUR = 0 THEN AddS(r.toc, -(Hours(r) \div 2) * HOUR)
  ELSE IF r.sys = "G" /\ r.v = 2 THEN FloorTo(NormW(r.tx), 30) ELSE NormW(r.tx)
Begin(r) ==
  IF r.sys = "G" THEN IF r.toc[2] % (2 * HOUR) = 0 THEN AddS(r.toc, -(Hours(r) \div 2) * HOUR)
                      ELSE FloorTo(AddS(Xmit(r), 6), 30)
  ELSE IF r.sys = "C" THEN MaxW(Toe(r), Xmit(r))
  ELSE Xmit(r)
End(r) ==
  IF r.sys = "G" THEN AddS(CeilTo(Toe(r), HOUR), (Hours(r) \div 2) * HOUR)
  ELSE IF r.sys = "J" THEN AddS(Toe(r), Hours(r) * (HOUR \div 2))
  ELSE IF r.sys = "E" THEN AddS(Toe(r), 4 * HOUR)
  ELSE AddS(Toe(r), WEEK)
ValidAt(r, t) == LeW(Begin(r), t) /\ LeW(t, End(r))

Bit(n, k) == (n \div k) % 2
\* Galileo: 0 healthy, 1 degraded, 2 unhealthy; acc is -100 when not given
GalHealth(r) ==
  LET sh == IF Bit(r.dsrc, 1) = 1 THEN 1 ELSE IF Bit(r.dsrc, 4) = 1 THEN 64 ELSE 8
      dvs == Bit(r.health, sh)
      hs == (r.health \div (2 * sh)) % 4
  IN  IF hs \in {1, 3} THEN 2 ELSE IF hs = 2 \/ dvs = 1 \/ r.acc = -100 THEN 1 ELSE 0
Healthy(r) ==
  IF r.sys = "E" THEN GalHealth(r) = 0
  ELSE IF r.sys = "J" THEN (r.health \div 2) % 16 = 0
  ELSE r.health = 0
TimeSys(s) == CASE s = "G" -> "GPS" [] s = "E" -> "GAL" [] s = "C" -> "BDT" [] s = "J" -> "QZS"
SatNum(r) == IF r.sys = "J" THEN r.prn + 192 ELSE r.prn
\* accuracy reported by the ephemeris, in cm; -1 for the open class
URAClass(cm) == IF URAIndex(cm) = 15 THEN -1 ELSE URA[URAIndex(cm) + 1]
Accuracy(r) == IF r.sys = "G" THEN URAClass(r.acc) ELSE r.acc
OpenAcc == 999999999
\* what the fit interval field of a record made from the ephemeris holds
FitBack(r) == IF r.sys = "G" /\ r.v = 3 THEN (IF r.fit = 0 THEN 4 ELSE IF r.fit = 1 THEN 6 ELSE r.fit) ELSE r.fit

EphOf(r) == [toe |-> Toe(r), toc |-> r.toc, tx |-> Xmit(r), begin |-> Begin(r), end |-> End(r), healthy |-> Healthy(r), acc |-> Accuracy(r)]
\* the record made back from the ephemeris of r
Back(r) == [r EXCEPT !.tx = Xmit(r), !.fit = FitBack(r), !.acc = IF r.sys = "G" /\ Accuracy(r) = -1 THEN OpenAcc ELSE Accuracy(r), !.v = 3]

\* the older EngEphemeris: GPS only; flag only from hours
EngHours(r) == FitHours(r.iodc, IF r.fit > 4 THEN 1 ELSE 0)
EngBegin(r) == AddS(Toe(r), -(EngHours(r) \div 2) * HOUR)
EngEnd(r) == AddS(Toe(r), (EngHours(r) \div 2) * HOUR)
=============================================================================
