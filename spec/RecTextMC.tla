----------------------------- MODULE RecTextMC -----------------------------
(* The laws the file properties rest on: text read back gives what it was     *)
(* written to keep, and keeping twice is keeping once.                        *)
EXTENDS RecText
VARIABLES x, d
Edge6 == {0, 1, 4, 5, 9, 49, 50, 499999, 500000, 500001, 950000, 999949, 999950, 999994, 999995, 999999}
Init == /\ x \in {<<s, i, f, g>> : s \in {1, -1}, i \in {0, 1, 9, 99, 12345}, f \in Edge6, g \in {0, 1, 499999, 500000, 999999}}
        /\ d \in {0, 1, 3, 4, 6, 7, 9, 12}
Next == UNCHANGED <<x, d>>
Spec == Init /\ [][Next]_<<x, d>>
Digit(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit(Ch(s, Len(s)))
Dot(s) == CHOOSE i \in 1..Len(s) : Ch(s, i) = "."
\* reading a decimal
Parse(s0) ==
  LET s == Trim(s0)  neg == Ch(s, 1) = "-"  t == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      hasdot == \E i \in 1..Len(t) : Ch(t, i) = "."
      ip == IF hasdot THEN SubSeq(t, 1, Dot(t) - 1) ELSE t
      fp == SubSeq((IF hasdot THEN SubSeq(t, Dot(t) + 1, Len(t)) ELSE "") \o "000000000000", 1, 12)
  IN NormD(<<IF neg THEN -1 ELSE 1, Num(ip), Num(SubSeq(fp, 1, 6)), Num(SubSeq(fp, 7, 12))>>)
RoundTrip == Parse(Fix(x, 20, d)) = KeepD(x, d)
Idem == KeepD(KeepD(x, d), d) = KeepD(x, d)
\* rounding moves by at most half a unit: compared in units of 1e-6 where that fits
Near == LET k == KeepD(x, d)  v(q) == (IF q[2] > 100 THEN 0 ELSE q[2]) * 1000000 + q[3]
        IN (x[2] <= 99 /\ d <= 6) => (LET e == v(k) - v(x) IN 2 * (IF e < 0 THEN -e ELSE e) <= P10(6 - d) + 2)
Width == Len(Fix(x, 20, d)) = 20
\* exponential: the same digits as mantissa
E(n) == KeepE(<<x[1], 1000000 + x[3], (x[4] * 10) + (x[2] % 10), 3>>, n)
IdemE == \A n \in {9, 12, 13} : KeepE(E(n), n) = E(n) /\ E(n)[2] \in 1000000..9999999
Strings == \A s \in {"", "A", "AB C", " A", "ABCDEF "} : \A w \in {1, 3, 6} : KeepS(KeepS(s, w), w) = KeepS(s, w) /\ Trim(LJ(KeepS(s, w), w)) = KeepS(s, w)
=============================================================================
