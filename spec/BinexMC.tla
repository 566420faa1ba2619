------------------------------- MODULE BinexMC -------------------------------
(* A writer appends records in any form to a stream; a reader takes them from  *)
(* either end.  At every point what the writer put is what a reader gets, no   *)
(* proper prefix reads as more, and no single damaged byte of a message or of  *)
(* its check value passes.                                                     *)
EXTENDS Binex, TLC
CONSTANTS Ids, Msgs, MaxRecs
VARIABLES recs, bytes

Recs == { [id |-> i, rev |-> f.rev, big |-> f.big, enh |-> f.enh, msg |-> m] : i \in Ids, m \in Msgs, f \in Forms }
MCIds == {0, 128, UbMax}
MCMsgs == { <<>>, <<0>>, <<7, 200>>, <<194, 1, 2, 180>>, [i \in 1 .. 130 |-> (i * 7) % 256] }
MCIdsLong == {0, 127, 128, 16383, 16384, 2097151, 2097152, UbMax}
MCMsgsLong == MCMsgs \cup { [i \in 1 .. 200 |-> i], <<242, 176, 176>> }
Init == recs = <<>> /\ bytes = <<>>
Next == /\ Len(recs) < MaxRecs
        /\ \E r \in Recs :
             /\ recs' = Append(recs, r)
             /\ bytes' = bytes \o RecBytes(r)
Spec == Init /\ [][Next]_<<recs, bytes>>

Only(p) == [i \in 1 .. Len(p.recs) |-> p.recs[i].rec]
Readable == LET p == ParseAll(bytes) IN p.end = "eof" /\ Only(p) = recs
Backward == (\A i \in 1 .. Len(recs) : recs[i].rev) =>
            LET p == ParseAll(Rev(bytes)) IN p.end = "eof" /\ Only(p) = Rev(recs)
\* a stream cut anywhere gives the records that are whole, and no other
Cut == \A n \in 0 .. Len(bytes) - 1 :
         (n > Len(bytes) - 12) => LET p == ParseAll(SubSeq(bytes, 1, n)) IN IsPrefix(Only(p), recs) /\ Len(p.recs) < Len(recs)
Damage == Len(recs) = 1 =>
  LET r == recs[1]  h == HeadLen(r)  k == CheckLen(r.enh, h - 1 + Len(r.msg))
      last == h + Len(r.msg) + k
  IN \A i \in (h + 1) .. last : (i <= h + 4 \/ i > last - 4) =>
       \A d \in {1, 128, 255} : ParseAll([bytes EXCEPT ![i] = @ ^^ d]).recs = <<>>
Sizes == Len(recs) = 1 =>
  LET r == recs[1] IN Len(bytes) = HeadLen(r) + Len(r.msg) + CheckLen(r.enh, HeadLen(r) - 1 + Len(r.msg))
                                   + (IF r.rev THEN 1 + UbSize(Len(Forward(r))) ELSE 0)

\* the integers, near every change of size
Around == UNION { { b - 1, b, b + 1 } : b \in {1, 128, 16384, 2097152, 4194304, 536870910} }
Nears == { << b[1], b[2], c >> : b \in { MgLim[k] : k \in 1 .. 8 }, c \in {0, W - 1} }
         \cup { Sub3(MgLim[k], <<0, 0, d>>) : k \in 1 .. 8, d \in 0 .. 15 } \cup { Add3(MgLim[k], <<0, 0, d>>) : k \in 1 .. 7, d \in 1 .. 17 }
Junk == <<255, 128, 0>>
ASSUME \A v \in Around, le \in BOOLEAN :
         LET e == UbEnc(v, le) IN /\ Len(e) = UbSize(v) /\ \A i \in 1 .. Len(e) : e[i] \in Byte
                                  /\ UbDec(Junk \o e \o Junk, 4, le) = [n |-> Len(e), v |-> v]
                                  /\ \A n \in 1 .. Len(e) - 1 : UbDec(SubSeq(e, 1, n), 1, le).n = 0
ASSUME \A mag \in { x \in Nears : MgFits(x) /\ x[1] >= 0 }, le, neg \in BOOLEAN :
         LET e == MgEnc(neg, mag, le)  zero == mag = <<0, 0, 0>> IN
         (zero /\ neg) \/
         ( /\ Len(e) = MgSize(mag) /\ \A i \in 1 .. Len(e) : e[i] \in Byte
           /\ e # MgNone(le)
           /\ MgDec(Junk \o e \o Junk, 4, le) = [n |-> Len(e), none |-> FALSE, neg |-> neg, mag |-> mag]
           /\ \A n \in 1 .. Len(e) - 1 : MgDec(SubSeq(e, 1, n), 1, le).n = 0 )
ASSUME \A le \in BOOLEAN : MgDec(MgNone(le), 1, le).none
\* the standard check values of "123456789"
ASSUME LET s == <<49, 50, 51, 52, 53, 54, 55, 56, 57>> IN
         Crc16(s) = <<61, 187>> /\ Crc32(s) = <<38, 57, 244, 203>> /\ Crc8(s) = <<49>>
=============================================================================
