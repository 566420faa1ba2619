------------------------------ MODULE RecFile ------------------------------
(* A file of records as a reader sees it: a queue behind a header.  A damaged  *)
(* record cannot be read; the attempt fails and leaves the stream where it was. *)
EXTENDS Integers, Sequences
VARIABLES file,    \* records written, in order
          bad,     \* indices of damaged records
          pos,     \* records read since the file was opened
          hread,   \* header read
          rn       \* records (header included) read successfully
fv == <<file, bad, pos, hread, rn>>
FInit == file = <<>> /\ bad = {} /\ pos = 0 /\ hread = FALSE /\ rn = 0
FNew == file' = <<>> /\ bad' = {} /\ pos' = 0 /\ hread' = FALSE /\ rn' = 0
FPut(r) == file' = Append(file, r) /\ UNCHANGED <<bad, pos, hread, rn>>
FOpen == pos' = 0 /\ hread' = FALSE /\ rn' = 0 /\ UNCHANGED <<file, bad>>
\* record k cannot be read; when the file is cut there, nothing follows
FDamage(k, cut) == bad' = {k} /\ file' = (IF cut THEN SubSeq(file, 1, k) ELSE file) /\ pos' = 0 /\ hread' = FALSE /\ rn' = 0
FHead == hread' = TRUE /\ rn' = rn + (IF hread THEN 0 ELSE 1) /\ UNCHANGED <<file, bad, pos>>
AtEnd == pos = Len(file)
CanGet == ~AtEnd /\ (pos + 1) \notin bad
\* what the next read does
Outcome == IF AtEnd THEN "eof" ELSE IF CanGet THEN "ok" ELSE "fail"
\* reading a record reads the header first when that has not been done
FGet == /\ hread' = TRUE
        /\ IF CanGet THEN pos' = pos + 1 ELSE UNCHANGED pos
        /\ UNCHANGED <<file, bad>>
=============================================================================
