---------------------------- MODULE LeapSecTrace ----------------------------
EXTENDS LeapSec, Instant, TraceBase
TInit == l = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, n) == Abs(a - b) <= n

LeapOK ==
  LET y == Ev.y m == Ev.m IN
  IF y < 1960 \/ m \notin 1..12 THEN Ev.v = 0
  ELSE IF y >= 1972 THEN Ev.v = TaiUtc(<<y,m>>) * S1
  ELSE \/ Near(Ev.v, PreValue(y, m, Ev.d, Ev.f), 1)
       \/ Ev.v = PreEntryValue(y, m, Ev.d) /\ PrintT(<<"KNOWN-FINDING", "C04-pre1972">>)

\* TAI - system, in 1e-7 s; leap = what getLeapSeconds returned for the date
FromTai(s) == IF s \in Utcs THEN Ev.leap ELSE Uniform[s]
Canon(s) == IF s = "TDB" THEN "TT" ELSE s
\* correction a->b, added to an a time to give a b time
Corr(a, b) ==
  FromTai(Canon(a)) - FromTai(Canon(b))
    + (IF b = "TDB" THEN TdbMinusTT(Ev.y, Ev.m, Ev.d, Ev.f) ELSE 0)
    - (IF a = "TDB" THEN TdbMinusTT(Ev.y, Ev.m, Ev.d, Ev.f) ELSE 0)
\* the library's periodic term: a tenth of the amplitude, opposite sign
CorrKnown(a, b) ==
  FromTai(Canon(a)) - FromTai(Canon(b))
    - (IF b = "TDB" THEN TdbTerms(Ev.y, Ev.m, Ev.d, Ev.f, 1657) ELSE 0)
    + (IF a = "TDB" THEN TdbTerms(Ev.y, Ev.m, Ev.d, Ev.f, 1657) ELSE 0)
OneOK(a, b, x, v) ==
  IF a = b THEN x = "ok" /\ v = 0
  ELSE IF a \in {"Unknown", "Any"} \/ b \in {"Unknown", "Any"} THEN x = "Exception"
  ELSE IF a \in Convertible /\ b \in Convertible
       THEN /\ x = "ok"
            /\ IF "TDB" \in {a, b}
               THEN \/ Near(v, Corr(a, b), 8)
                    \/ Near(v, CorrKnown(a, b), 8) /\ PrintT(<<"KNOWN-FINDING", "C04-tdb">>)
               ELSE Near(v, Corr(a, b), 0)
       ELSE TRUE
TscOK ==
  /\ \A i \in 1..3 : OneOK(Ev.p[i][1], Ev.p[i][2], Ev.x[i], Ev.v[i])
  /\ Ev.leap = Ev.leap2
  \* a->b and b->c compose to a->c
  /\ (\A i \in 1..3 : Ev.x[i] = "ok") => Near(Ev.v[1] + Ev.v[2], Ev.v[3], 1)

\* broadcast corrections: <<from, to, sign of the polynomial when going from -> to, uses the drift>>
Types == [GPUT |-> <<"GPS","UTC",-1,TRUE>>, GAUT |-> <<"GAL","UTC",-1,TRUE>>, GLUT |-> <<"GLO","UTC",-1,FALSE>>,
          GPGA |-> <<"GPS","GAL",1,TRUE>>, GLGP |-> <<"GLO","GPS",1,FALSE>>, QZUT |-> <<"QZS","UTC",-1,TRUE>>,
          BDUT |-> <<"BDT","UTC",-1,TRUE>>, BDGP |-> <<"BDT","GPS",1,FALSE>>, IRUT |-> <<"IRN","UTC",-1,TRUE>>,
          IRGP |-> <<"IRN","GPS",-1,TRUE>>, QZGP |-> <<"QZS","GPS",0,FALSE>>, SBUT |-> <<"GPS","UTC",-1,TRUE>>]
\* whole seconds from the reference (GPS week, sow) to instant t (t has no sub-second part)
DtSec(t, w, s) == (t[1] - 2444245 - 7*w) * 86400 + t[2] \div 1000 - s
TsxOK ==
  LET ty == Types[Ev.t] dt == DtSec(Ev.ct, Ev.w, Ev.sow)
      poly == Ev.a0 + (IF ty[4] THEN Ev.a1 * dt ELSE 0)
      sg == IF Ev.sys = ty[1] THEN ty[3] ELSE -ty[3]
  IN /\ Ev.names = <<ty[1], ty[2]>>
     /\ IF Ev.t = "SBUT" THEN Ev.x = "Exception"
        ELSE IF Ev.sys \notin {ty[1], ty[2]} THEN Ev.x = "Exception"
        ELSE /\ Ev.x = "ok"
             /\ Near(Ev.v, -Ev.back, 1)                       \* the two directions cancel
             /\ CASE Ev.t = "QZGP" -> TRUE
                  [] Ev.t = "BDGP" -> Ev.a1 = 0 => Near(Ev.v, sg * poly, 1)
                  [] OTHER -> Near(Ev.v, sg * poly, 1)
ConvOK ==
  LET ty == Types[Ev.t] IN
  IF Ev.a = Ev.b \/ Ev.a = "Unknown" \/ Ev.b = "Unknown" THEN Ev.x = "Exception"
  ELSE Ev.x = "ok" /\ (Ev.v <=> {Ev.a, Ev.b} = {ty[1], ty[2]})
NameOK == Ev.back = Ev.s /\ (Ev.str \in {"Any","GPS","GLO","GAL","QZS","BDT","IRN","UTC","TAI","TT","TDB"} => Ev.s = Ev.str)

TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new")
     \/ Is("leap") /\ LeapOK
     \/ Is("tsc") /\ TscOK
     \/ Is("tsx") /\ TsxOK
     \/ Is("conv") /\ ConvOK
     \/ Is("name") /\ NameOK
     \/ Is("type") /\ (IF Ev.s \in DOMAIN Types THEN Ev.x = "ok" /\ Ev.back = Ev.s
                       ELSE IF Ev.s = "GAGP" THEN Ev.x = "ok" /\ Ev.back = "GPGA" ELSE Ev.x = "Exception")
TSpec == TInit /\ [][TNext]_l
=============================================================================
