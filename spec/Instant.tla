------------------------------ MODULE Instant ------------------------------
(* Points on the continuous time line at 1 ns grain: <<day, ms of day, ns of  *)
(* ms>>, always normalised.  DAYMS = milliseconds per day, MSNS = ns per ms.  *)
EXTENDS Integers, Sequences
CONSTANTS DAYMS, MSNS

\* floor division works for negative numbers in TLA+: a = b*(a \div b) + a % b
NormT(t) ==
  LET ms == t[2] + t[3] \div MSNS
  IN  <<t[1] + ms \div DAYMS, ms % DAYMS, t[3] % MSNS>>

IsNorm(t) == t[2] \in 0..(DAYMS-1) /\ t[3] \in 0..(MSNS-1)
AddT(a, b) == NormT(<<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>)
SubT(a, b) == NormT(<<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>)
NegT(a)    == SubT(<<0,0,0>>, a)
LtT(a, b)  == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LeT(a, b)  == a = b \/ LtT(a, b)
\* |a-b| <= n ns  (n < MSNS)
NearT(a, b, n) ==
  LET x == SubT(a, b) y == SubT(b, a)
  IN  \/ x[1] = 0 /\ x[2] = 0 /\ x[3] <= n
      \/ y[1] = 0 /\ y[2] = 0 /\ y[3] <= n
\* |a-b| <= m ms
NearMs(a, b, m) ==
  LET x == SubT(a, b) y == SubT(b, a)
  IN  \/ x[1] = 0 /\ x[2] <= m
      \/ y[1] = 0 /\ y[2] <= m
=============================================================================
