----------------------------- MODULE TimeTextMC -----------------------------
(* Walks the time line and checks that each complete set of letters determines *)
(* the instant: the numbers a format prints, scanned back, give it again.       *)
EXTENDS TimeText
CONSTANTS FIRST, LAST
VARIABLES t
Secs == {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399}
Init == t = <<FIRST, 0, 0>>
Next ==
  \/ \E s \in Secs, u \in {0, 1, 499999, 500000, 999999} : t' = <<t[1], s, u>>
  \/ t[1] < LAST /\ t' = <<t[1] + 1, t[2], t[3]>>
  \/ t[1] + 365 < LAST /\ t' = <<t[1] + 365, t[2], t[3]>>
Spec == Init /\ [][Next]_t

Civil == LET c == FromDayNo(t[1]) IN <<DayNo(c[1], c[2], c[3]), (t[2] \div 3600) * 3600 + ((t[2] % 3600) \div 60) * 60 + (t[2] % 60), t[3]>> = t
Yds == LET c == FromDayNo(t[1]) IN <<DayNo(c[1], 1, 1) + DayOfYear(t[1]) - 1, t[2], t[3]>> = t
Weeks5 == \A c \in WkSys : WkDays(t, c) >= 0 =>
   LET w == Week(t, c) IN
   /\ FromWeek(c, w, Dow(t) * 86400 + t[2], t[3]) = t
   /\ (w \div Roll(c)) * Roll(c) + (w % Roll(c)) = w
   /\ Dow(t) = WkDays(t, c) % 7
ZGrain == WkDays(t, "GPS") >= 0 =>
   LET z == Grain(t, "z") d == (t[2] - z[2]) * 1000000 + t[3] - z[3] IN
   /\ z[1] = t[1] /\ d >= 0 /\ d < 1500000
   /\ Zc(z) = Zc(t) /\ Zc(t) \in 0..403199
\* overriding everything gives the donor, overriding nothing the target
Over ==
  \A u \in { <<t[1], 86399 - t[2], 123456>>, <<t[1] + 40, t[2], 0>> } :
  /\ Override(t, u, {}) = t
  /\ Override(t, u, {"Y","H","M","f"}) = u
  /\ Override(t, u, {"Y","j","s"}) = u
  /\ \A c \in WkSys : WkDays(t, c) >= 0 => Override(t, u, {WkFull(c), "g"}) = u
=============================================================================
