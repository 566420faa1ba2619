-------------------------------- MODULE Binex --------------------------------
(* BINEX records: the two variable-length integers, the layout of a record in *)
(* its eight forms, the check value, and what reading any bytes at all gives. *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt

Byte == 0 .. 255
Sub(s, from, n) == SubSeq(s, from, from + n - 1)
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

--------------------------------------------------------------------------------
(* UBNXI: unsigned, one to four bytes; every byte but a fourth carries seven    *)
(* bits and says whether another follows; a fourth carries eight.               *)
UbMax == 536870911
UbSize(v) == IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3 ELSE 4
UbEnc(v, le) ==
  LET n == UbSize(v)
      seven(k) == (v \div (128 ^ k)) % 128                       \* the k-th group of seven bits
      little == [i \in 1 .. n |-> IF i = 4 THEN v \div 2097152 ELSE seven(i - 1) + (IF i < n THEN 128 ELSE 0)]
      big3 == [i \in 1 .. n |-> seven(n - i) + (IF i < n THEN 128 ELSE 0)]
      big4 == << 128 + (v \div 4194304), 128 + ((v \div 32768) % 128), 128 + ((v \div 256) % 128), v % 256 >>
  IN IF le THEN little ELSE IF n = 4 THEN big4 ELSE big3
\* decoding from position p (1-based): [n |-> bytes used, v |-> value], n = 0 when the bytes end early
UbDec(s, p, le) ==
  LET have == Len(s) - p + 1
      b(i) == s[p + i - 1]
      c(i) == b(i) % 128
      n == IF have < 1 THEN 0
           ELSE IF b(1) < 128 THEN 1
           ELSE IF have < 2 THEN 0
           ELSE IF b(2) < 128 THEN 2
           ELSE IF have < 3 THEN 0
           ELSE IF b(3) < 128 THEN 3
           ELSE IF have < 4 THEN 0 ELSE 4
      v == CASE n = 0 -> 0
             [] n = 1 -> b(1)
             [] n = 2 -> IF le THEN c(1) + 128 * c(2) ELSE 128 * c(1) + c(2)
             [] n = 3 -> IF le THEN c(1) + 128 * c(2) + 16384 * c(3) ELSE 16384 * c(1) + 128 * c(2) + c(3)
             [] OTHER -> IF le THEN c(1) + 128 * c(2) + 16384 * c(3) + 2097152 * b(4)
                         ELSE 4194304 * c(1) + 32768 * c(2) + 256 * c(3) + b(4)
  IN [n |-> n, v |-> v]

--------------------------------------------------------------------------------
(* MGFZI: signed, one to eight bytes: a sign, three bits of length, and the     *)
(* magnitude less the largest magnitude that fewer bytes hold (less one byte    *)
(* of overlap).  Magnitudes are <<h, m, l>> in base 2^24.                       *)
W == 16777216
MgBase == << <<0, 0, 0>>, <<0, 0, 14>>, <<0, 0, 4109>>, <<0, 0, 1052684>>, <<0, 16, 1052683>>,
             <<0, 4112, 1052682>>, <<0, 1052688, 1052681>>, <<16, 1052688, 1052680>> >>
MgLim  == << <<0, 0, 15>>, <<0, 0, 4109>>, <<0, 0, 1052684>>, <<0, 16, 1052683>>, <<0, 4112, 1052682>>,
             <<0, 1052688, 1052681>>, <<16, 1052688, 1052680>>, <<4112, 1052688, 1052679>> >>
Le3(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[3] <= b[3]
Sub3(a, b) ==
  LET l == a[3] - b[3]
      cl == IF l < 0 THEN 1 ELSE 0
      m == a[2] - b[2] - cl
      cm == IF m < 0 THEN 1 ELSE 0
  IN << a[1] - b[1] - cm, m + cm * W, l + cl * W >>
Add3(a, b) ==
  LET l == a[3] + b[3]  m == a[2] + b[2] + (l \div W)
  IN << a[1] + b[1] + (m \div W), m % W, l % W >>
MgFits(mag) == Le3(mag, MgLim[8])
MgSize(mag) == CHOOSE k \in 1 .. 8 : Le3(mag, MgLim[k]) /\ \A j \in 1 .. k - 1 : ~Le3(mag, MgLim[j])
\* the eight low-order bytes, least significant first
Bytes8(x) == << x[3] % 256, (x[3] \div 256) % 256, x[3] \div 65536,
                x[2] % 256, (x[2] \div 256) % 256, x[2] \div 65536, x[1] % 256, (x[1] \div 256) % 256 >>
OfBytes8(B) == << B[7] + 256 * B[8], B[4] + 256 * B[5] + 65536 * B[6], B[1] + 256 * B[2] + 65536 * B[3] >>
MgEnc(neg, mag, le) ==
  LET k == MgSize(mag)
      B == Bytes8(Sub3(mag, MgBase[k]))
      flag == (IF neg THEN 8 ELSE 0) + k - 1
  IN IF le THEN [i \in 1 .. k |-> (B[i] % 16) * 16 + (IF i = 1 THEN flag ELSE B[i - 1] \div 16)]
     ELSE [i \in 1 .. k |-> IF i = 1 THEN flag * 16 + (B[k] % 16) ELSE B[k + 1 - i]]
\* "-0" in one byte says that there is no value
MgNone(le) == IF le THEN <<8>> ELSE <<128>>
\* [n |-> bytes used, none, neg, mag], n = 0 when the bytes end early
MgDec(s, p, le) ==
  IF p > Len(s) THEN [n |-> 0, none |-> FALSE, neg |-> FALSE, mag |-> <<0, 0, 0>>]
  ELSE
  LET flag == IF le THEN s[p] % 16 ELSE s[p] \div 16
      k == (flag % 8) + 1
  IN IF p + k - 1 > Len(s) THEN [n |-> 0, none |-> FALSE, neg |-> FALSE, mag |-> <<0, 0, 0>>]
     ELSE
     LET b(i) == s[p + i - 1]
         big == [i \in 1 .. 8 |-> IF i > k THEN 0 ELSE IF i = k THEN b(1) % 16 ELSE b(k + 1 - i)]
         little == [i \in 1 .. 8 |-> IF i > k THEN 0 ELSE (b(i) \div 16) + (IF i < k THEN (b(i + 1) % 16) * 16 ELSE 0)]
         rest == OfBytes8(IF le THEN little ELSE big)
         none == k = 1 /\ flag >= 8 /\ rest = <<0, 0, 0>>
     IN [n |-> k, none |-> none, neg |-> flag >= 8 /\ ~none, mag |-> Add3(rest, MgBase[k])]

--------------------------------------------------------------------------------
(* Check values over the bytes of id, length and message.                       *)
RECURSIVE Bits16(_, _)
Bits16(c, n) == IF n = 0 THEN c ELSE Bits16(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1)
Tab16 == [b \in Byte |-> Bits16(b, 8)]
Step16(c, b) == (c \div 256) ^^ Tab16[(c % 256) ^^ b]
\* CRC-32 as <<high, low>> halves
Half32(c) ==
  LET lo == (c[2] \div 2) + (c[1] % 2) * 32768   hi == c[1] \div 2
  IN IF c[2] % 2 = 1 THEN << hi ^^ 60856, lo ^^ 33568 >> ELSE << hi, lo >>
RECURSIVE Bits32(_, _)
Bits32(c, n) == IF n = 0 THEN c ELSE Bits32(Half32(c), n - 1)
Tab32 == [b \in Byte |-> Bits32(<<0, b>>, 8)]
Step32(c, b) ==
  LET t == Tab32[(c[2] % 256) ^^ b]
      lo == (c[2] \div 256) + (c[1] % 256) * 256
  IN << (c[1] \div 256) ^^ t[1], lo ^^ t[2] >>
\* folds in halves, so that a message of any length goes without deep recursion
RECURSIVE Fold(_, _, _, _, _)
Fold(Op(_, _), c, s, from, to) ==
  IF from > to THEN c
  ELSE IF to - from < 40 THEN FoldLeft(Op, c, SubSeq(s, from, to))
  ELSE LET mid == (from + to) \div 2 IN Fold(Op, Fold(Op, c, s, from, mid), s, mid + 1, to)
Xor8(a, b) == a ^^ b
Crc8(s) == << Fold(Xor8, 0, s, 1, Len(s)) >>
Crc16(s) == LET c == Fold(Step16, 0, s, 1, Len(s)) IN << c % 256, c \div 256 >>
Crc32(s) ==
  LET d == Fold(Step32, <<65535, 65535>>, s, 1, Len(s))
      hi == d[1] ^^ 65535  lo == d[2] ^^ 65535
  IN << lo % 256, lo \div 256, hi % 256, hi \div 256 >>

--------------------------------------------------------------------------------
(* Records: [id, rev, big, enh, msg].  rev: a reversed copy of the length and a *)
(* second synchronisation byte follow, so that the record can be read backward. *)
MegaByte == 1048576
CheckLen(enh, n) == IF enh THEN (IF n < 128 THEN 2 ELSE 4) ELSE IF n < 128 THEN 1 ELSE IF n < 4096 THEN 2 ELSE 4
Check(enh, s) ==
  LET k == CheckLen(enh, Len(s)) IN IF k = 1 THEN Crc8(s) ELSE IF k = 2 THEN Crc16(s) ELSE Crc32(s)
Flags(r) == (IF r.rev THEN 16 ELSE 0) + (IF r.big THEN 32 ELSE 0) + (IF r.enh THEN 8 ELSE 0)
SyncOf(r) == 192 + Flags(r) + (IF r.enh THEN 0 ELSE 2)
TailOf(r) == IF r.enh THEN (IF r.big THEN 224 ELSE 228) ELSE (IF r.big THEN 176 ELSE 180)
Form(rev, big, enh) == [rev |-> rev, big |-> big, enh |-> enh]
Forms == { Form(a, b, c) : a, b, c \in BOOLEAN }

Body(r) == UbEnc(r.id, ~r.big) \o UbEnc(Len(r.msg), ~r.big) \o r.msg
HeadLen(r) == 1 + UbSize(r.id) + UbSize(Len(r.msg))
Forward(r) == LET b == Body(r) IN << SyncOf(r) >> \o b \o Check(r.enh, b)
RecBytes(r) ==
  LET f == Forward(r) IN
  IF r.rev THEN f \o Rev(UbEnc(Len(f), ~r.big)) \o << TailOf(r) >> ELSE f

(* Reading one record at position p of any bytes: [ok, rec, n].                 *)
Bad == [ok |-> FALSE, rec |-> <<>>, n |-> 0]
ParseForward(s, p, form) ==
  LET le == ~form.big
      a == UbDec(s, p + 1, le)
  IN IF a.n = 0 THEN Bad ELSE
  LET b == UbDec(s, p + 1 + a.n, le) IN
  IF b.n = 0 THEN Bad ELSE
  LET from == p + 1 + a.n + b.n                           \* of the message
      body == a.n + b.n + b.v
      k == CheckLen(form.enh, body)
  IN IF b.v > Len(s) \/ from + b.v + k - 1 > Len(s) THEN Bad ELSE
  IF Check(form.enh, Sub(s, p + 1, body)) # Sub(s, from + b.v, k) THEN Bad ELSE
  LET r == [id |-> a.v, rev |-> form.rev, big |-> form.big, enh |-> form.enh, msg |-> Sub(s, from, b.v)]
      len == 1 + body + k
      tail == Rev(UbEnc(len, le)) \o << TailOf(r) >>
  IN IF ~form.rev THEN [ok |-> TRUE, rec |-> r, n |-> len]
     ELSE IF p + len + Len(tail) - 1 > Len(s) THEN Bad
     ELSE IF Sub(s, p + len, Len(tail)) # tail THEN Bad
     ELSE [ok |-> TRUE, rec |-> r, n |-> len + Len(tail)]
ParseBackward(s, p, form) ==
  LET le == ~form.big
      a == UbDec(s, p + 1, le)
  IN IF a.n = 0 \/ a.v < 1 \/ a.v > Len(s) \/ p + a.n + a.v > Len(s) THEN Bad ELSE
  LET t == Rev(Sub(s, p + 1 + a.n, a.v))
      r0 == [id |-> 0, rev |-> TRUE, big |-> form.big, enh |-> form.enh, msg |-> <<>>]
  IN IF t[1] # SyncOf(r0) THEN Bad ELSE
  LET i == UbDec(t, 2, le) IN
  IF i.n = 0 THEN Bad ELSE
  LET m == UbDec(t, 2 + i.n, le) IN
  IF m.n = 0 THEN Bad ELSE
  LET body == i.n + m.n + m.v
      k == CheckLen(form.enh, body)
  IN IF m.v > Len(t) \/ 1 + body + k # Len(t) THEN Bad ELSE
  IF Check(form.enh, Sub(t, 2, body)) # Sub(t, 2 + body, k) THEN Bad ELSE
  [ok |-> TRUE, rec |-> [r0 EXCEPT !.id = i.v, !.msg = Sub(t, 2 + i.n + m.n, m.v)], n |-> 1 + a.n + a.v]
Parse(s, p) ==
  LET heads == { f \in Forms : s[p] = SyncOf(f) }
      tails == { f \in Forms : f.rev /\ s[p] = TailOf(f) }
  IN IF heads # {} THEN ParseForward(s, p, CHOOSE f \in heads : TRUE)
     ELSE IF tails # {} THEN ParseBackward(s, p, CHOOSE f \in tails : TRUE)
     ELSE Bad
\* all records up to the end or to the first bytes that are no record: [recs, end]
RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, p, recs) ==
  IF p > Len(s) THEN [recs |-> recs, end |-> "eof"]
  ELSE LET r == Parse(s, p) IN
       IF r.ok THEN ParseFrom(s, p + r.n, Append(recs, r)) ELSE [recs |-> recs, end |-> "bad"]
ParseAll(s) == ParseFrom(s, 1, <<>>)

--------------------------------------------------------------------------------
(* The message as a buffer: data put at an offset replaces what is there and    *)
(* extends the message at its end; the offset moves past the data.              *)
CanPut(msg, off) == off <= Len(msg)
Put(msg, off, bytes) ==
  SubSeq(msg, 1, off) \o bytes \o (IF off + Len(bytes) < Len(msg) THEN SubSeq(msg, off + Len(bytes) + 1, Len(msg)) ELSE <<>>)
CanGet(msg, off, n) == off + n <= Len(msg)
Ordered(big, bytes) == IF big THEN Rev(bytes) ELSE bytes             \* bytes given least significant first
Padded(bytes, n) == [i \in 1 .. n |-> IF i <= Len(bytes) THEN bytes[i] ELSE 0]
=============================================================================
