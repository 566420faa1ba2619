------------------------------ MODULE RecText ------------------------------
(* What fixed-column text keeps of a record: rounding of decimals, widths of  *)
(* strings, and the text itself.                                              *)
(*   decimal     <<sign, integer part, 6 decimals, 6 more decimals>>          *)
(*   exponential <<sign, 7 digits, 8 digits, exponent>> : d.dddddd x 10^e     *)
(*   field       <<class, key, value>>                                        *)
EXTENDS Integers, Sequences, TLC
P10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000
            [] n = 6 -> 1000000 [] n = 7 -> 10000000 [] n = 8 -> 100000000 [] n = 9 -> 1000000000
M == 1000000
\* ---- decimals ---------------------------------------------------------------
\* rounded to d decimals, half away from zero
Carry(x) ==
  LET g == x[4] % M  f0 == x[3] + (x[4] \div M)  f == f0 % M  i == x[2] + (f0 \div M)
  IN <<x[1], i, f, g>>
RoundD(x, d) ==
  IF d >= 12 THEN x
  ELSE IF d > 6 THEN LET u == P10(12 - d) IN Carry(<<x[1], x[2], x[3], ((x[4] + (u \div 2)) \div u) * u>>)
  ELSE IF d = 6 THEN Carry(<<x[1], x[2], x[3] + (IF x[4] >= 500000 THEN 1 ELSE 0), 0>>)
  ELSE LET u == P10(6 - d) IN Carry(<<x[1], x[2], ((x[3] + (u \div 2)) \div u) * u, 0>>)
\* zero has no sign
NormD(x) == IF x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN <<1, 0, 0, 0>> ELSE x
KeepD(x, d) == NormD(RoundD(x, d))
\* ---- text ---------------------------------------------------------------------
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
Sp(n) == SubSeq("                                                                                                                        ", 1, n)
\* widths as the writer applies them: too long is cut, on the left or on the right
RJ(s, w) == IF Len(s) > w THEN SubSeq(s, Len(s) - w + 1, Len(s)) ELSE Sp(w - Len(s)) \o s
LJ(s, w) == IF Len(s) > w THEN SubSeq(s, 1, w) ELSE s \o Sp(w - Len(s))
ZJ(s, w) == IF Len(s) > w THEN SubSeq(s, Len(s) - w + 1, Len(s)) ELSE Rep("0", w - Len(s)) \o s
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " " THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Ch(s, 1) = " " THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
Trim(s) == LTrim(RTrim(s))
\* d decimals
DText(x, d) ==
  LET r == RoundD(x, d)
      all == ZJ(ToString(r[3]), 6) \o ZJ(ToString(r[4]), 6)
  IN (IF x[1] < 0 THEN "-" ELSE "") \o ToString(r[2]) \o (IF d = 0 THEN "" ELSE "." \o SubSeq(all, 1, d))
Fix(x, w, d) == RJ(DText(x, d), w)
IFix(n, w) == RJ(ToString(n), w)
IFixZ(n, w) == ZJ(ToString(n), w)
\* what a string field of width w gives back
KeepS(s, w) == Trim(SubSeq(s, 1, IF Len(s) < w THEN Len(s) ELSE w))
\* ---- exponential values -----------------------------------------------------------
\* 15 digits rounded to n significant digits, as <<sign, 7 digits, 8 digits, exponent>>
RoundE(x, n) ==
  IF n >= 15 THEN x
  ELSE IF n < 7 THEN
    LET u == P10(7 - n)  hi == ((x[2] + (u \div 2)) \div u) * u
    IN IF hi >= P10(7) THEN <<x[1], P10(6), 0, x[4] + 1>> ELSE <<x[1], hi, 0, x[4]>>
  ELSE LET u == P10(15 - n)
           lo0 == ((x[3] + (u \div 2)) \div u) * u
           lo == lo0 % P10(8)
           hi == x[2] + (lo0 \div P10(8))
       IN IF hi >= P10(7) THEN <<x[1], P10(6), 0, x[4] + 1>> ELSE <<x[1], hi, lo, x[4]>>
KeepE(x, n) == IF x[2] = 0 THEN <<1, 0, 0, 0>> ELSE RoundE(x, n)
\* ---- lists of fields ---------------------------------------------------------------
\* Keep(class, value) says what the text keeps; both lists in the same order
SameRec(a, b, Keep(_, _)) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ Keep(a[i][1], a[i][3]) = Keep(b[i][1], b[i][3])
Has(r, c) == \E i \in DOMAIN r : r[i][1] = c
Val(r, c) == LET i == CHOOSE i \in DOMAIN r : r[i][1] = c IN r[i][3]
ValK(r, c, k) == LET i == CHOOSE i \in DOMAIN r : r[i][1] = c /\ r[i][2] = k IN r[i][3]
All(r, c) == SelectSeq(r, LAMBDA f : f[1] = c)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
=============================================================================
