-------------------------------- MODULE Weeks --------------------------------
(* GNSS week counting.  A week register is a full week number; its short week  *)
(* and rollover count are views of it.  A Z-count register is <<week, z>> with  *)
(* 0 <= z < ZWEEK, one Z-count being 1.5 s; it moves along the line of integers *)
(* week*ZWEEK + z and never below 0.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS ZWEEK, ZDAY

EpochMJD == [GPS |-> 44244, GAL |-> 51412, BDS |-> 53736, QZS |-> 44244, IRN |-> 51412]
Bits == [GPS |-> 10, GAL |-> 12, BDS |-> 13, QZS |-> 16, IRN |-> 10]
Roll(c) == 2 ^ Bits[c]

ModWeek(w, r) == w % r
EpochOf(w, r) == w \div r
SetEpoch(w, e, r) == e * r + (w % r)
SetMod(w, m, r) == (w \div r) * r + (m % r)

\* full weeks with short week m (of r) that meet the range lo..hi
Candidates(m, r, lo, hi) == { k * r + m : k \in (lo \div r)..(hi \div r) } \cap lo..hi

\* Z-counts -----------------------------------------------------------------
ZNorm(w, z) == <<w + z \div ZWEEK, z % ZWEEK>>
ZAdd(p, n) == ZNorm(p[1] + n \div ZWEEK, p[2] + (n % ZWEEK))
ZOk(p) == p[1] >= 0
\* difference p - q as <<weeks, z>>, normalised
ZDiff(p, q) == ZNorm(p[1] - q[1], p[2] - q[2])
ZLt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* same block of b counts, blocks starting at offset o; blocks shorter than a week restart each week
SameBlock(p, q, b, o) ==
  IF b < ZWEEK THEN p[1] = q[1] /\ (p[2] - o) \div b = (q[2] - o) \div b
  ELSE (p[1] * ZWEEK + p[2] - o) \div b = (q[1] * ZWEEK + q[2] - o) \div b
=============================================================================
