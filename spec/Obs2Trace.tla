------------------------------ MODULE Obs2Trace ------------------------------
EXTENDS Obs2, RecFile, TraceBase
VARIABLES hdr, hbad
NT == Len(All(hdr, "obst"))
Year1 == ValK(hdr, "first", "Y")
TInit == l = 1 /\ FInit /\ hdr = <<>> /\ hbad = FALSE
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN hdr' = <<>> /\ hbad' = FALSE /\ FNew
     ELSE IF Is("hput") THEN
       /\ Chk(IF CanWrite(Ev.h) THEN Ev.x = "ok" /\ TextOK(HeadLines(Ev.h), Ev.lines) /\ (\/ Ev.count = Len(Ev.lines)
               \/ /\ Ev.lack # 0 /\ Ev.count + Ev.lack = Len(Ev.lines)
                  /\ PrintT(<<"KNOWN-FINDING", "C22-wave-lines">>)) ELSE Ev.x = "fail")
       /\ hdr' = Ev.h /\ hbad' = FALSE /\ FNew
     ELSE IF Is("put") THEN
       /\ Chk(Ev.x = "ok" /\ RecordOK(Ev.r, NT, Ev.lines))
       /\ Chk(~Event(Ev.r) \/ Val(Ev.r, "nsv") = Len(HeadLines(Aux(Ev.r))))
       /\ (IF Readable(Ev.r) THEN FPut(ReadBack(Ev.r, Year1)) ELSE UNCHANGED fv) /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("open") THEN FOpen /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("damage") THEN FDamage(Ev.k, Ev.cut) /\ UNCHANGED <<hdr, hbad>>
     \* an epoch line that is none: the record is passed over
     ELSE IF Is("skip") THEN file' = Del(file, Ev.k) /\ bad' = {} /\ pos' = 0 /\ hread' = FALSE /\ rn' = 0 /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("badhead") THEN hbad' = TRUE /\ UNCHANGED <<fv, hdr>>
     ELSE IF Is("hget") THEN
       IF hbad THEN Ev.x = "fail" /\ Ev.rn = rn /\ UNCHANGED <<fv, hdr, hbad>>
       ELSE Chk(Ev.x = "ok" /\ Same2(Ev.h, hdr)) /\ FHead /\ Ev.rn = rn' /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("get") THEN
       IF hbad THEN Ev.x = "fail" /\ Ev.rn = rn /\ UNCHANGED <<fv, hdr, hbad>>
       ELSE /\ Ev.x = Outcome /\ FGet
            /\ rn' = (IF Outcome = "fail" THEN rn ELSE rn + (IF hread THEN 0 ELSE 1) + (IF CanGet THEN 1 ELSE 0))
            /\ Ev.rn = rn'
            /\ Chk(Ev.x = "ok" => Same2(Ev.r, file[pos + 1]) /\ Ev.ts = "GPS")
            /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("hget3") THEN
       Chk(Ev.x = "ok" /\ Same2(Ev.h, Head3(hdr)) /\ Ev.codes = Codes3(hdr)) /\ FHead /\ UNCHANGED <<hdr, hbad>>
     ELSE IF Is("get3") THEN
       /\ Ev.x = Outcome /\ FGet /\ UNCHANGED rn
       /\ Chk(Ev.x = "ok" => Same3(hdr, Ev.r, file[pos + 1], Ev.sd))
       /\ UNCHANGED <<hdr, hbad>>
     \* written again as version 2 by the RINEX 3 classes
     ELSE IF Is("again") THEN
       /\ Chk(Ev.x = "ok" /\ Len(Ev.rs) = Len(file))
       /\ Chk(IF AgainOK(FALSE, hdr, Ev.h)
              THEN \A i \in DOMAIN file : Same2(Ev.rs[i], AgainRec(FALSE, hdr, file[i]))
              ELSE /\ AgainOK(TRUE, hdr, Ev.h)
                   /\ \A i \in DOMAIN file : Same2(SelectSeq(Ev.rs[i], LAMBDA f : ~Lost(f)), AgainRec(TRUE, hdr, file[i]))
                   /\ PrintT(<<"KNOWN-FINDING", "C22-galileo-p">>))
       /\ UNCHANGED <<fv, hdr, hbad>>
     ELSE Is("gen2") /\ Ev.same /\ UNCHANGED <<fv, hdr, hbad>>
TSpec == TInit /\ [][TNext]_<<l, fv, hdr, hbad>>
=============================================================================
