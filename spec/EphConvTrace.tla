---------------------------- MODULE EphConvTrace ----------------------------
EXTENDS EphConv, TraceBase
VARIABLE r
TInit == l = 1 /\ r = <<>>
P(x) == NormW(x)
\* a GPS ephemeris made from a record has the record's metres, truncated, where the index of the accuracy class belongs
HeldMetres == r.acc \div 100
HeldAcc == IF HeldMetres >= 15 THEN -1 ELSE URA[HeldMetres + 1]
AccOK(a, right, held) == a = right \/ (r.sys = "G" /\ a = held /\ PrintT(<<"KNOWN-FINDING", "C14-accuracy">>))
EphOK(e) ==
  /\ e.loaded /\ e.sat = SatNum(r)
  /\ P(e.toe) = Toe(r) /\ P(e.toc) = r.toc /\ P(e.tx) = Xmit(r)
  /\ P(e.begin) = Begin(r) /\ P(e.end) = End(r)
  /\ \A k \in 1..Len(e.ts) : e.ts[k] = TimeSys(r.sys)
  /\ e.healthy = Healthy(r) /\ AccOK(e.acc, Accuracy(r), HeldAcc)
  /\ e.L = r.L
  /\ \A k \in 1..Len(e.at) : e.at[k][2] = ValidAt(r, P(e.at[k][1]))
BackOK(e) ==
  LET b == Back(r)
  IN  /\ e.sys = r.sys /\ e.prn = r.prn /\ e.sat = SatNum(r) /\ e.toc = b.toc /\ e.toe = r.toe /\ e.tocs = r.toc[2]
      /\ P(e.tx) = b.tx /\ AccOK(e.acc, b.acc, 100 * HeldMetres)
      /\ r.sys = "E" \/ e.health = r.health
      /\ r.sys \notin {"G", "J"} \/ e.fit = b.fit
      /\ e.L = r.L
EngOK(e) ==
  /\ P(e.toe) = Toe(r) /\ P(e.toc) = r.toc
  /\ P(e.begin) = EngBegin(r) /\ P(e.end) = EngEnd(r)
  /\ P(e.tx) = FloorTo(NormW(r.tx), 30)
  /\ e.acc = URAClass(r.acc) /\ e.health = r.health /\ e.L = r.L
EngBackOK(e) ==
  /\ e.sys = r.sys /\ e.prn = r.prn /\ e.sat = SatNum(r) /\ e.toc = r.toc /\ e.toe = r.toe /\ e.tocs = r.toc[2]
  /\ P(e.tx) = FloorTo(NormW(r.tx), 30)
  /\ e.acc = (IF URAClass(r.acc) = -1 THEN OpenAcc ELSE URAClass(r.acc)) /\ e.health = r.health /\ e.fit = EngHours(r) /\ e.L = r.L
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN r' = <<>>
     ELSE IF Is("rec") THEN r' = Ev.r
     ELSE /\ UNCHANGED r
          /\ Chk(CASE Is("eph") -> Ev.x = "ok" /\ EphOK(Ev)
                   [] Is("back") -> Ev.x = "ok" /\ BackOK(Ev)
                   [] Is("eng") -> Ev.x = "ok" /\ EngOK(Ev)
                   [] Is("engback") -> Ev.x = "ok" /\ EngBackOK(Ev)
                   \* version 2 record to version 3 record
                   [] Is("up") -> /\ Ev.sys = "G" /\ Ev.prn = r.prn /\ Ev.toc = r.toc /\ Ev.tocs = r.toc[2] /\ Ev.toe = r.toe
                                  /\ P(Ev.tx) = FloorTo(NormW(r.tx), 30)
                                  /\ Ev.acc = r.acc /\ Ev.health = r.health /\ Ev.fit = r.fit /\ Ev.L = r.L
                   \* a record of one system is not an ephemeris of another
                   [] Is("other") -> ~Ev.loaded
                   [] Is("glo") -> Ev.a = Ev.b)
TSpec == TInit /\ [][TNext]_<<l, r>>
=============================================================================
