------------------------------ MODULE WeeksTrace ------------------------------
EXTENDS Weeks, Calendar, Instant, TraceBase
VARIABLES wk,      \* [c, w]: the week register under test
          zc       \* [1..3 -> <<week, z>>]

TInit == wk = [c |-> "GPS", w |-> 0] /\ zc = [i \in 1..3 |-> <<0,0>>] /\ l = 1
U == UNCHANGED <<wk, zc>>

\* instant -> week and seconds of week -> instant
WsOK ==
  LET t == Ev.t  e == EpochMJD[Ev.c] + 2400001  days == t[1] - e IN
  IF days < 0 THEN Ev.x = "InvalidRequest"
  ELSE /\ Ev.x = "ok" /\ Ev.s = Ev.bs
       /\ Ev.w = days \div 7 /\ Ev.dow = days % 7
       /\ NearT(NormT(<<Ev.sow[1], Ev.sow[2], Ev.sow[3]>>), <<days % 7, t[2], t[3]>>, 4)
       /\ Ev.mod = ModWeek(Ev.w, Roll(Ev.c)) /\ Ev.ep = EpochOf(Ev.w, Roll(Ev.c))
       /\ Ev.roll = Roll(Ev.c) /\ Ev.mjd = EpochMJD[Ev.c]
       /\ Ev.bx = "ok" /\ NearT(NormT(Ev.b), t, 4)

\* the same instant as week and Z-count
WzOK ==
  LET t == Ev.t days == t[1] - 2444245 IN
  IF days < 0 THEN Ev.x = "InvalidRequest"
  ELSE LET z == (days % 7) * ZDAY + t[2] \div 1500
       IN /\ Ev.x = "ok" /\ Ev.w = days \div 7
          \* a Z-count boundary reached by binary fractions may fall either side by rounding
          /\ Ev.z = z \/ (t[2] % 1500 = 0 /\ t[3] = 0 /\ Ev.z \in {z, z-1})
          /\ Ev.dow = days % 7
          /\ Ev.bx = "ok" /\ NormT(Ev.b) = NormT(<<2444245 + 7 * Ev.w + Ev.z \div ZDAY, (Ev.z % ZDAY) * 1500, 0>>)

WkHolds == Ev.w = wk'.w /\ Ev.mod = ModWeek(wk'.w, Roll(wk'.c)) /\ Ev.ep = EpochOf(wk'.w, Roll(wk'.c))
WeekNo(c, n) == (n - EpochMJD[c] - 2400001) \div 7
AdjOK ==
  LET c == wk.c  cand == Candidates(wk.w % Roll(c), Roll(c), WeekNo(c, DayNo(Ev.y,1,1)), WeekNo(c, DayNo(Ev.y,12,31))) IN
  /\ Ev.w % Roll(c) = wk.w % Roll(c)
  /\ cand # {} => Ev.w \in cand
  /\ wk' = [wk EXCEPT !.w = Ev.w]

\* Z-count registers: p = contents after the event
ZHolds == Ev.p = zc'[Ev.r]
T(x) == IF x THEN "T" ELSE "F"
ZMove(n) ==          \* n = <<weeks, counts>>
  LET q == ZNorm(zc[Ev.r][1] + n[1], zc[Ev.r][2] + n[2]) IN
  IF ZOk(q) THEN Ev.x = "ok" /\ zc' = [zc EXCEPT ![Ev.r] = q] ELSE Ev.x = "InvalidRequest" /\ UNCHANGED zc

TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ wk' = [c |-> Ev.c, w |-> 0] /\ UNCHANGED zc
     \/ Is("ws") /\ WsOK /\ U
     \/ Is("wz") /\ WzOK /\ U
     \/ Is("wset") /\ wk' = [wk EXCEPT !.w = Ev.a] /\ UNCHANGED zc /\ WkHolds
     \/ Is("wep") /\ wk' = [wk EXCEPT !.w = SetEpoch(@, Ev.a, Roll(wk.c))] /\ UNCHANGED zc /\ WkHolds
     \/ Is("wmod") /\ wk' = [wk EXCEPT !.w = SetMod(@, Ev.a, Roll(wk.c))] /\ UNCHANGED zc /\ WkHolds
     \/ Is("wboth") /\ wk' = [wk EXCEPT !.w = Ev.a * Roll(wk.c) + (Ev.b % Roll(wk.c))] /\ UNCHANGED zc /\ WkHolds
     \/ Is("wadj") /\ AdjOK /\ UNCHANGED zc /\ WkHolds
     \/ Is("word") /\ LET a == Ev.a b == Ev.b lt == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) eq == a = b
                      IN (IF Ev.same THEN Ev.o = <<T(lt), T(lt \/ eq), T(~lt /\ ~eq), T(~lt), T(eq), T(~eq)>>
                          ELSE /\ \A i \in 1..4 : Ev.o[i] = "InvalidRequest"
                               /\ Ev.o[5] = "F" /\ Ev.o[6] \in {"T", "InvalidRequest"}) /\ U
     \/ Is("zset") /\ Ev.x = "ok" /\ zc' = [zc EXCEPT ![Ev.r] = Ev.a] /\ UNCHANGED wk /\ ZHolds
     \/ Is("zbad") /\ Ev.x = "InvalidParameter" /\ U /\ Ev.p = zc[Ev.r]
     \/ Is("zadd") /\ ZMove(Ev.n) /\ UNCHANGED wk /\ ZHolds
     \/ Is("zplus") /\ LET q == ZNorm(zc[Ev.q][1] + Ev.n[1], zc[Ev.q][2] + Ev.n[2]) IN   \* r := q + n, q kept
            /\ IF ZOk(q) THEN Ev.x = "ok" /\ zc' = [zc EXCEPT ![Ev.r] = q] ELSE Ev.x = "InvalidRequest" /\ UNCHANGED zc
            /\ UNCHANGED wk /\ ZHolds /\ Ev.pq = zc[Ev.q]
     \* post-increment returns the old value
     \/ Is("zpost") /\ ZMove(Ev.n) /\ UNCHANGED wk /\ ZHolds /\ (Ev.x = "ok" => Ev.old = zc[Ev.r])
     \/ Is("zfull") /\ zc' = [zc EXCEPT ![Ev.r] = IF Ev.keep THEN <<(zc[Ev.r][1] \div 1024) * 1024 + (Ev.a[1] % 1024), Ev.a[2]>> ELSE Ev.a]
            /\ UNCHANGED wk /\ ZHolds
     \/ Is("zget") /\ Ev.dow = zc[Ev.r][2] \div ZDAY /\ Ev.full = <<zc[Ev.r][1] % 1024, zc[Ev.r][2]>>
            /\ Ev.tot = zc[Ev.r] /\ U
     \/ Is("zdiff") /\ Ev.v = ZDiff(zc[Ev.a], zc[Ev.b]) /\ U
     \/ Is("zcmp") /\ LET a == zc[Ev.a] b == zc[Ev.b] lt == ZLt(a, b) eq == a = b
                      IN Ev.o = <<T(lt), T(lt \/ eq), T(~lt /\ ~eq), T(~lt), T(eq), T(~eq)>> /\ U
     \/ Is("zblock") /\ Ev.ok = SameBlock(zc[Ev.a], zc[Ev.b], Ev.bl, Ev.off) /\ U
TSpec == TInit /\ [][TNext]_<<wk, zc, l>>
ZNonNeg == \A i \in 1..3 : zc[i][1] >= 0 /\ zc[i][2] \in 0..(ZWEEK-1)
=============================================================================
