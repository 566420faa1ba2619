------------------------------ MODULE GloStore ------------------------------
(* GLONASS state-vector records per satellite, each good for Half seconds      *)
(* around its epoch.  A table is a sequence of [t, id, h] ordered by epoch.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Half
Below(tab, t) == Cardinality({ i \in DOMAIN tab : tab[i].t < t })
Has(tab, t) == \E i \in DOMAIN tab : tab[i].t = t
\* a record for an epoch already there takes its place
Put(tab, r) == LET n == Below(tab, r.t)
                   rest == IF Has(tab, r.t) THEN n + 2 ELSE n + 1
               IN SubSeq(tab, 1, n) \o <<r>> \o SubSeq(tab, rest, Len(tab))
Admits(onlyHealthy, r) == r.h \/ ~onlyHealthy
Edit(tab, lo, hi) == SelectSeq(tab, LAMBDA r : lo <= r.t /\ r.t <= hi)
\* the coming record if it is near enough, else the last one before; 0 = none.
\* the far end of a record's span is open for computing, left open for finding
Pick(tab, t) ==
  IF tab = <<>> THEN 0
  ELSE LET n == Below(tab, t)
           i == IF n = Len(tab) THEN n ELSE IF tab[n+1].t > t + Half /\ n > 0 THEN n ELSE n + 1
       IN IF tab[i].t - Half <= t /\ t < tab[i].t + Half THEN tab[i].id ELSE 0
AtEdge(tab, t) == \E i \in DOMAIN tab : t = tab[i].t + Half
=============================================================================
