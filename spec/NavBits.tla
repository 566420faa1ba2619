------------------------------- MODULE NavBits -------------------------------
(* A packed navigation message: a sequence of bits (a string over "0", "1")   *)
(* under construction, with the metadata that says what it is and whence.     *)
(* Numbers are two's complement strings of 64 bits, so that every field width *)
(* of the format can be reached exactly.                                      *)
EXTENDS Integers, Sequences

Bit(s, i) == SubSeq(s, i, i)
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN c
             ELSE LET h == Rep(c, n \div 2) IN h \o h \o (IF (n % 2) = 1 THEN c ELSE "")
All(s, c) == s = Rep(c, Len(s))
Low(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
High(s, n) == SubSeq(s, 1, n)
Flip1(c) == IF c = "1" THEN "0" ELSE "1"
RECURSIVE Flip(_)
Flip(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN Flip1(s)
           ELSE LET h == Len(s) \div 2 IN Flip(SubSeq(s, 1, h)) \o Flip(SubSeq(s, h + 1, Len(s)))
\* s + 1, the carry out dropped
RECURSIVE Inc(_)
Inc(s) == IF s = "" THEN "" ELSE IF Bit(s, Len(s)) = "0" THEN High(s, Len(s) - 1) \o "1" ELSE Inc(High(s, Len(s) - 1)) \o "0"
Neg(s) == Inc(Flip(s))
Minus(s) == Bit(s, 1) = "1"
Mag(s) == IF Minus(s) THEN Neg(s) ELSE s
Sgn(neg, m) == IF neg THEN Neg(m) ELSE m
\* magnitude divided by a small number, towards zero
RECURSIVE DivStep(_, _, _, _)
DivStep(s, d, i, r) ==
  IF i > Len(s) THEN ""
  ELSE LET t == 2 * r + (IF Bit(s, i) = "1" THEN 1 ELSE 0)
       IN  (IF t >= d THEN "1" ELSE "0") \o DivStep(s, d, i + 1, IF t >= d THEN t - d ELSE t)
Div(s, d) == IF d = 1 THEN s ELSE DivStep(s, d, 1, 0)
SDiv(s, d) == Sgn(Minus(s), Div(Mag(s), d))
\* the low 64 bits of a product with a small number
RECURSIVE MulStep(_, _, _, _)
MulStep(s, d, i, c) ==
  IF i = 0 THEN ""
  ELSE LET t == c + (IF Bit(s, i) = "1" THEN d ELSE 0)
       IN  MulStep(s, d, i - 1, t \div 2) \o (IF (t % 2) = 1 THEN "1" ELSE "0")
Mul(s, d) == IF d = 1 THEN s ELSE MulStep(s, d, Len(s), 0)

-----------------------------------------------------------------------------
(* What fits a field of n bits, and what the field then holds.                *)
Pad(s) == Rep("0", 64 - Len(s)) \o s
Ext(s) == Rep(Bit(s, 1), 64 - Len(s)) \o s
FitsU(v, n) == n >= Len(v) \/ All(High(v, Len(v) - n), "0")
FitsS(v, n) == n >= Len(v) \/ All(High(v, Len(v) - n + 1), Bit(v, 1))
Field(v, n) == Low(v, n)
\* a number m * 2^k in units of 2^p, rounded to the nearest, halves away from zero
Units(m, k, p) ==
  LET a == Mag(m)
      d == p - k
      q == IF d <= 0 THEN SubSeq(a \o Rep("0", -d), 1 - d, Len(a) - d)
           ELSE IF d > Len(a) THEN Rep("0", Len(a))
           ELSE LET h == Pad(High(a, Len(a) - d)) IN IF Bit(a, Len(a) - d + 1) = "1" THEN Inc(h) ELSE h
  IN  Sgn(Minus(m), q)

-----------------------------------------------------------------------------
(* Reading: s from bit b (counted from 0), n bits.                            *)
Has(s, b, n) == b >= 0 /\ n >= 0 /\ b + n <= Len(s)
Cut(s, b, n) == SubSeq(s, b + 1, b + n)
RECURSIVE Join(_, _)
Join(s, parts) == IF parts = <<>> THEN "" ELSE Cut(s, Head(parts)[1], Head(parts)[2]) \o Join(s, Tail(parts))
AllHave(s, parts) == \A i \in 1..Len(parts) : Has(s, parts[i][1], parts[i][2])
AsU(s, parts) == Pad(Join(s, parts))
AsS(s, parts) == Ext(Join(s, parts))
AsSM(s, b, n) == Sgn(Bit(s, b + 1) = "1", Pad(Cut(s, b + 1, n - 1)))

-----------------------------------------------------------------------------
(* Writing over, comparing.                                                   *)
Over(s, b, t) == High(s, b) \o t \o SubSeq(s, b + Len(t) + 1, Len(s))
CopyRange(s, t, b, e) == LET z == IF e = -1 THEN Len(s) - 1 ELSE e IN IF z < b THEN s ELSE Over(s, b, Cut(t, b, z - b + 1))
Min(a, b) == IF a < b THEN a ELSE b
\* same number of bits, and equal from bit b to bit e (to the end for -1 and beyond)
MatchRange(s, t, b, e) ==
  /\ Len(s) = Len(t)
  /\ LET z == IF e = -1 \/ e >= Len(s) THEN Len(s) - 1 ELSE e
         a == IF b < 0 THEN 0 ELSE IF b >= Len(s) THEN Len(s) - 1 ELSE b
     IN  Len(s) = 0 \/ z < a \/ Cut(s, a, z - a + 1) = Cut(t, a, z - a + 1)
\* the shorter first, then the first bit that differs
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(s, t, a, b) ==        \* of two different strings that differ within a..b
  IF a = b THEN a
  ELSE LET m == (a + b) \div 2
       IN  IF SubSeq(s, a, m) # SubSeq(t, a, m) THEN FirstDiff(s, t, a, m) ELSE FirstDiff(s, t, m + 1, b)
Less(s, t) == IF Len(s) # Len(t) THEN Len(s) < Len(t)
              ELSE s # t /\ Bit(s, FirstDiff(s, t, 1, Len(s))) = "0"

-----------------------------------------------------------------------------
(* Text: hexadecimal words, the last one filled up with zeros.                *)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Val4(s) == (IF Bit(s, 1) = "1" THEN 8 ELSE 0) + (IF Bit(s, 2) = "1" THEN 4 ELSE 0)
         + (IF Bit(s, 3) = "1" THEN 2 ELSE 0) + (IF Bit(s, 4) = "1" THEN 1 ELSE 0)
RECURSIVE Hex(_)
Hex(s) == IF s = "" THEN "" ELSE HexDigit[Val4(High(s, 4)) + 1] \o Hex(SubSeq(s, 5, Len(s)))
RECURSIVE HexWords(_, _)
HexWords(s, w) ==
  IF s = "" THEN <<>>
  ELSE IF Len(s) < w THEN << Hex(s \o Rep("0", 32 - Len(s))) >>
  ELSE << Hex(Rep("0", 32 - w) \o High(s, w)) >> \o HexWords(SubSeq(s, w + 1, Len(s)), w)
\* how many words stand on each line of at most n
RECURSIVE PerLine(_, _)
PerLine(k, n) == IF k = 0 THEN <<>> ELSE IF k <= n THEN <<k>> ELSE <<n>> \o PerLine(k - n, n)

\* eight-bit characters: those of IS-GPS-200 20.3.3.5.1.8, given by their codes
TextCode(c) == c \in 65..90 \/ c \in 48..58 \/ c \in {32, 34, 39, 43, 45, 46, 47, 248}
RECURSIVE Bin(_, _)
Bin(v, n) == IF n = 0 THEN "" ELSE Bin(v \div 2, n - 1) \o (IF (v % 2) = 1 THEN "1" ELSE "0")
RECURSIVE Chars(_)
Chars(cs) == IF cs = <<>> THEN "" ELSE Bin(Head(cs), 8) \o Chars(Tail(cs))
Text(cs, n) == IF n <= Len(cs) THEN SubSeq(cs, 1, n) ELSE cs \o [i \in 1..(n - Len(cs)) |-> 32]

(* Metadata: satellite, signal, message, receiver, time; each may be compared *)
(* on its own.                                                                *)
MetaKeys == <<"sat", "obs", "rx", "time", "nav">>      \* flag bits 1, 2, 4, 8, 16
MetaMatch(a, b, flags) ==
  \A i \in 1..5 : ((flags \div (2^(i - 1))) % 2) = 1 => a[MetaKeys[i]] = b[MetaKeys[i]]
=============================================================================
