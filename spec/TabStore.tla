------------------------------ MODULE TabStore ------------------------------
(* A table of values against time for one satellite, interpolated over a       *)
(* window of 2n entries.  A table is a sequence of [t, p, v, a] by time; p, v  *)
(* and a are the value, its rate and its acceleration (position or clock).     *)
EXTENDS Integers, Sequences, FiniteSets
Below(tab, t) == Cardinality({ i \in DOMAIN tab : tab[i].t < t })
Has(tab, t) == \E i \in DOMAIN tab : tab[i].t = t
At(tab, t) == CHOOSE i \in DOMAIN tab : tab[i].t = t
Put(tab, r) == LET n == Below(tab, r.t)
                   rest == IF Has(tab, r.t) THEN n + 2 ELSE n + 1
               IN SubSeq(tab, 1, n) \o <<r>> \o SubSeq(tab, rest, Len(tab))
Rec(tab, t) == IF Has(tab, t) THEN tab[At(tab, t)] ELSE [t |-> t, p |-> 0, v |-> 0, a |-> 0]
Keep(tab, lo, hi) == SelectSeq(tab, LAMBDA r : lo <= r.t /\ r.t <= hi)
Min(a, b) == IF a < b THEN a ELSE b

\* windows are <<first, last>> indices; <<0, 0>> stands for a refusal
None == <<0, 0>>
Wide(tab, w, max) == max # -1 /\ tab[w[2]].t - tab[w[1]].t > max
Gap(tab, i, gap) == gap # -1 /\ tab[i+1].t - tab[i].t > gap
\* n entries before t and n at or after it.  A time in the table also has a window
\* when it is the first of a pair (n = 1), or one entry short at the end
Centered(tab, t, n, gap, max) ==
  LET k == Below(tab, t)   m == Len(tab) - k
      w == IF k >= n /\ m >= n THEN <<k - n + 1, k + n>>
           ELSE IF Has(tab, t) /\ n = 1 /\ k = 0 /\ m >= 2 THEN <<1, 2>>
           ELSE IF Has(tab, t) /\ n > 1 /\ m = n - 1 /\ k >= n + 1 THEN <<k - n, k + n - 1>>
           ELSE None
  IN IF w = None THEN None
     ELSE IF Gap(tab, IF k = 0 THEN 1 ELSE k, gap) \/ Wide(tab, w, max) THEN None
     ELSE w
\* 2n entries around t, as near centred as the ends of the table allow
Off(tab, t, n, gap, max) ==
  LET k == Below(tab, t)   m == Len(tab) - k
      a == IF k < n THEN 1 ELSE IF m < n THEN Len(tab) - 2*n + 1 ELSE k - n + 1
      w == <<a, a + 2*n - 1>>
      g == IF Has(tab, t) \/ gap = -1 THEN FALSE ELSE IF k = 0 THEN tab[1].t - t > gap ELSE Gap(tab, k, gap)
  IN IF m = 0 \/ Len(tab) < 2*n \/ g \/ Wide(tab, w, max) THEN None ELSE w

\* the entries lie on one straight line in field f
Line(tab, w, f) == \A i \in w[1]..w[2] :
  (tab[i][f] - tab[w[1]][f]) * (tab[w[1]+1].t - tab[w[1]].t) = (tab[w[1]+1][f] - tab[w[1]][f]) * (tab[i].t - tab[w[1]].t)
\* value and slope on that line, times the first step D (so that they are integers)
Step(tab, w) == tab[w[1]+1].t - tab[w[1]].t
Value(tab, w, f, t) == tab[w[1]][f] * Step(tab, w) + (tab[w[1]+1][f] - tab[w[1]][f]) * (t - tab[w[1]].t)
Slope(tab, w, f) == tab[w[1]+1][f] - tab[w[1]][f]
\* most frequent spacing, a set of admissible answers
Steps(tab) == { tab[i+1].t - tab[i].t : i \in 1..(Len(tab)-1) }
Count(tab, d) == Cardinality({ i \in 1..(Len(tab)-1) : tab[i+1].t - tab[i].t = d })
Nominal(tab) == { d \in Steps(tab) : \A e \in Steps(tab) : Count(tab, d) >= Count(tab, e) }
=============================================================================
