------------------------------ MODULE Obs3Trace ------------------------------
EXTENDS Obs3, RecFile, TraceBase
VARIABLE hdr
TInit == l = 1 /\ FInit /\ hdr = <<>>
CivOK == Ev.c = <<>> \/ LET q == ValK(Ev.r, "t", "s") IN
         q[2] = Val(Ev.c, "h") * 3600 + Val(Ev.c, "m") * 60 + Val(Ev.c, "s")[2] \/ ~(q[3] \in 1..999998)
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN FNew /\ hdr' = <<>>
     ELSE IF Is("hput") THEN
       /\ Chk(LET ok == CanWrite(Ev.h, \A c \in Req(Ver(Ev.h)) : Has(Ev.h, c), Ev.hasR)
          IN IF ok THEN Ev.x = "ok" /\ HeadTextOK(Ev.h, Ev.lines) ELSE Ev.x = "fail")
       /\ hdr' = Ev.h /\ FNew
     ELSE IF Is("put") THEN
       /\ Chk(Ev.x = "ok" /\ DataTextOK(Ev.r, Ev.c, Ev.lines) /\ CivOK)
       /\ IF Written(Ev.r) THEN FPut(Ev.r) ELSE UNCHANGED fv
       /\ UNCHANGED hdr
     ELSE IF Is("open") THEN FOpen /\ UNCHANGED hdr
     ELSE IF Is("damage") THEN FDamage(Ev.k, Ev.cut) /\ UNCHANGED hdr
     ELSE IF Is("hget") THEN
       /\ Chk(Ev.x = "ok" /\ Same3(Ev.h, Expect3(hdr))) /\ FHead /\ Ev.rn = rn'
       /\ UNCHANGED hdr
     ELSE IF Is("get") THEN
       /\ Ev.x = Outcome
       /\ FGet
       /\ rn' = (IF Outcome = "fail" THEN rn ELSE rn + (IF hread THEN 0 ELSE 1) + (IF CanGet THEN 1 ELSE 0))
       /\ Ev.rn = rn'
       /\ Chk(Ev.x = "ok" => Same3(Ev.r, file[pos + 1]) /\ (Ev.ts # "" => Ev.ts = FileTS(hdr)))
       /\ UNCHANGED hdr
     ELSE Is("gen2") /\ (IF ValK(hdr, "first", "ts") = "UNK" THEN TRUE ELSE Ev.same) /\ UNCHANGED <<fv, hdr>>
TSpec == TInit /\ [][TNext]_<<l, file, bad, pos, hread, rn, hdr>>
=============================================================================
