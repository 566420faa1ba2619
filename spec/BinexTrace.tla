------------------------------ MODULE BinexTrace ------------------------------
EXTENDS Binex, TraceBase
VARIABLES cur, file, recs

None == [id |-> 0, rev |-> FALSE, big |-> TRUE, enh |-> FALSE, msg |-> <<>>]
TInit == l = 1 /\ cur = None /\ file = <<>> /\ recs = <<>>
Step == l' = l + 1
Same == UNCHANGED <<cur, file, recs>>
Err == Ev.got # "ok"
HasFlag(x, f) == (x \div f) % 2 = 1

ANew == Is("new") /\ Step /\ cur' = None /\ file' = <<>> /\ recs' = <<>>

\* the integers by themselves
AUb == /\ Is("ub") /\ Step /\ Same
       /\ Chk(IF Ev.v > UbMax THEN Err
              ELSE /\ ~Err /\ Ev.n = UbSize(Ev.v) /\ Ev.used = Ev.n
                   /\ Ev.bytes = UbEnc(Ev.v, Ev.le) /\ Ev.written = UbEnc(Ev.v, Ev.le) /\ Ev.reversed = Rev(UbEnc(Ev.v, Ev.le)))
AUbOver == Is("ubover") /\ Step /\ Same /\ Err
AUbDec == /\ Is("ubdec") /\ Step /\ Same
          /\ LET d == UbDec(Ev.bytes, Ev.off + 1, Ev.le) IN
             /\ Chk(IF d.n = 0 THEN Err ELSE ~Err /\ Ev.v = d.v /\ Ev.n = d.n /\ Ev.used = d.n)
             /\ Chk(IF d.n = 0 THEN Ev.rgot # "ok" ELSE Ev.rgot = "ok" /\ Ev.rv = d.v /\ Ev.rused = d.n /\ Ev.left = Len(Ev.bytes) - Ev.off - d.n)
AMg == /\ Is("mg") /\ Step /\ Same
       /\ Chk(IF ~MgFits(Ev.mag) THEN Err
              ELSE /\ ~Err /\ Ev.n = MgSize(Ev.mag) /\ Ev.used = Ev.n
                   /\ Ev.bytes = MgEnc(Ev.neg, Ev.mag, Ev.le) /\ Ev.written = MgEnc(Ev.neg, Ev.mag, Ev.le))
MgSame(x, d) == /\ (d.none => x.n = 0)
                /\ (~d.none => (x.n = d.n /\ x.neg = d.neg /\ x.mag = d.mag))
                /\ x.used = d.n
AMgDec == /\ Is("mgdec") /\ Step /\ Same
          /\ LET d == MgDec(Ev.bytes, Ev.off + 1, Ev.le) IN
             /\ Chk(IF d.n = 0 THEN Err ELSE ~Err /\ MgSame(Ev.dec, d))
             /\ Chk(IF d.n = 0 THEN Ev.rgot # "ok" ELSE Ev.rgot = "ok" /\ MgSame(Ev.read, d) /\ Ev.left = Len(Ev.bytes) - Ev.off - d.n)
             /\ Chk((d.n # 0 /\ d.none) => (Ev.again = MgNone(Ev.le)))

\* one record being made
AFlags == /\ Is("flags") /\ Step /\ UNCHANGED <<file, recs>>
          /\ cur' = [cur EXCEPT !.rev = HasFlag(Ev.f, 16), !.big = HasFlag(Ev.f, 32), !.enh = HasFlag(Ev.f, 8)]
          /\ Ev.got = Flags(cur')
AId == /\ Is("id") /\ Step /\ UNCHANGED <<file, recs>>
       /\ Chk(Ev.over => Err)
       /\ Chk((~Ev.over) => ~Err)
       /\ cur' = IF Ev.over THEN cur ELSE [cur EXCEPT !.id = Ev.v]
       /\ Ev.id = cur'.id
AClear == /\ Is("clear") /\ Step /\ UNCHANGED <<file, recs>>
          /\ cur' = [cur EXCEPT !.msg = <<>>] /\ Ev.len = 0
APut == /\ Is("put") /\ Step /\ UNCHANGED <<file, recs>>
        /\ LET data == CASE Ev.k = "ub" -> UbEnc(Ev.v, ~cur.big)
                         [] Ev.k = "mg" -> MgEnc(Ev.neg, Ev.mag, ~cur.big)
                         [] Ev.k = "raw" -> Ev.b
                         [] OTHER -> Ordered(cur.big, SubSeq(Ev.b, 1, Ev.size))
               ok == CanPut(cur.msg, Ev.off)
           IN /\ cur' = IF ok THEN [cur EXCEPT !.msg = Put(cur.msg, Ev.off, data)] ELSE cur
              /\ Chk(IF ok THEN ~Err /\ Ev.to = Ev.off + Len(data) ELSE Err /\ Ev.to = Ev.off)
              /\ Ev.msg = cur'.msg
AGet == /\ Is("get") /\ Step /\ Same
        /\ LET p == Ev.off + 1
               u == UbDec(cur.msg, p, ~cur.big)
               m == MgDec(cur.msg, p, ~cur.big)
               ok == CASE Ev.k = "ub" -> u.n > 0 [] Ev.k = "mg" -> m.n > 0 [] OTHER -> CanGet(cur.msg, Ev.off, Ev.size)
               n == CASE Ev.k = "ub" -> u.n [] Ev.k = "mg" -> m.n [] OTHER -> Ev.size
           IN /\ Chk(IF ok THEN ~Err /\ Ev.to = Ev.off + n ELSE Err /\ Ev.to = Ev.off)
              /\ Chk(ok => CASE Ev.k = "ub" -> Ev.v = u.v
                             [] Ev.k = "mg" -> IF m.none THEN Ev.n = 0 ELSE Ev.n = m.n /\ Ev.neg = m.neg /\ Ev.mag = m.mag
                             [] Ev.k = "raw" -> Ev.b = Sub(cur.msg, p, n)
                             [] OTHER -> Ev.b = Padded(Ordered(cur.big, Sub(cur.msg, p, n)), Ev.of))

\* written to and read from a stream
AWrite == /\ Is("write") /\ Step /\ UNCHANGED cur
          /\ LET b == RecBytes(cur) IN
             /\ ~Err /\ Ev.bytes = b
             /\ Ev.size = Len(b) /\ Ev.head = HeadLen(cur) /\ Ev.tail = Len(b) - HeadLen(cur) - Len(cur.msg)
             /\ file' = file \o b /\ recs' = Append(recs, cur)
SameRec(x, r) == x.id = r.id /\ x.flags = Flags(r) /\ x.msg = r.msg
ReadIs(p, counted) ==
  /\ Len(Ev.recs) = Len(p.recs)
  /\ \A i \in 1 .. Len(p.recs) : SameRec(Ev.recs[i], p.recs[i].rec) /\ (counted => Ev.recs[i].n = p.recs[i].n)
  /\ Ev.end = p.end
  \* a stream that failed on a record stands before that record
  /\ (Ev.pos >= 0 => Ev.pos = FoldLeft(LAMBDA a, x : a + x.n, 0, p.recs))
AsRead(rs, back) == [recs |-> [i \in 1 .. Len(rs) |-> [rec |-> rs[i], n |-> IF back THEN Len(Forward(rs[i])) + 1 + UbSize(Len(Forward(rs[i]))) ELSE Len(RecBytes(rs[i]))]],
                     end |-> "eof"]
ARead == /\ Is("read") /\ Step /\ Same /\ Chk(ReadIs(AsRead(recs, FALSE), Ev.counted))
AReadBack == /\ Is("readback") /\ Step /\ Same
             /\ Chk(IF \A i \in 1 .. Len(recs) : recs[i].rev THEN ReadIs(AsRead(Rev(recs), TRUE), Ev.counted)
                    ELSE ReadIs(ParseAll(Rev(file)), Ev.counted))
ADamaged == /\ Is("damaged") /\ Step /\ Same
            /\ LET cut == SubSeq(file, 1, Ev.cut)
                   hurt == [i \in 1 .. Len(cut) |-> IF i = Ev.at + 1 THEN Ev.byte ELSE cut[i]]
               IN Chk(ReadIs(ParseAll(IF Ev.back THEN Rev(hurt) ELSE hurt), Ev.counted))
ABytes == Is("bytes") /\ Step /\ Same /\ Chk(ReadIs(ParseAll(Ev.b), Ev.counted))

TNext == More /\ (ANew \/ AUb \/ AUbOver \/ AUbDec \/ AMg \/ AMgDec \/ AFlags \/ AId \/ AClear \/ APut \/ AGet \/ AWrite \/ ARead \/ AReadBack \/ ADamaged \/ ABytes)
TSpec == TInit /\ [][TNext]_<<l, cur, file, recs>>
=============================================================================
