----------------------------- MODULE RnxNavTrace -----------------------------
EXTENDS RnxNav, RecFile, TraceBase
VARIABLE hdr
TInit == l = 1 /\ FInit /\ hdr = <<>>
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN hdr' = <<>> /\ FNew
     ELSE IF Is("hput") THEN
       /\ Chk(IF Ev.can THEN Ev.x = "ok" /\ HeadOK(Ev.h, Ev.lines, Ev.native) ELSE Ev.x = "fail")
       /\ hdr' = Ev.h /\ FNew
     ELSE IF Is("put") THEN
       /\ Chk(Ev.x = "ok" /\ RecTextOK(Ev.r, Ev.c, Val(hdr, "ver"), Ev.lines))
       /\ FPut(Ev.r) /\ UNCHANGED hdr
     ELSE IF Is("open") THEN FOpen /\ UNCHANGED hdr
     ELSE IF Is("damage") THEN FDamage(Ev.k, Ev.cut) /\ UNCHANGED hdr
     ELSE IF Is("hget") THEN
       /\ Chk(Ev.x = "ok" /\ SameHead(Ev.h, hdr)) /\ FHead /\ UNCHANGED hdr
     ELSE IF Is("get") THEN
       /\ Ev.x = Outcome /\ FGet /\ UNCHANGED rn
       /\ Chk(Ev.x = "ok" => SameNav(Ev.r, file[pos + 1], Val(hdr, "ver")) /\ Ev.ts = TSys(Val(Ev.r, "sys")))
       /\ UNCHANGED hdr
     ELSE Is("gen2") /\ Ev.same /\ UNCHANGED <<fv, hdr>>
TSpec == TInit /\ [][TNext]_<<l, file, bad, pos, hread, rn, hdr>>
=============================================================================
