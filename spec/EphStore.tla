------------------------------ MODULE EphStore ------------------------------
(* Store of broadcast ephemerides.  Times are integers (6 s steps from an      *)
(* origin that is a multiple of two hours of GPS week time).  One satellite's  *)
(* table is a sequence of records ordered by key:                              *)
(*   key k, reference time toe, clock time toc, validity b..e, earliest        *)
(*   transmit x, fit hours fit, identity id, healthy h.                        *)
EXTENDS Integers, Sequences, FiniteSets
Hour == 600
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Keys(tab) == { tab[i].k : i \in DOMAIN tab }
Below(tab, t) == Cardinality({ i \in DOMAIN tab : tab[i].k < t })
UpTo(tab, t) == Cardinality({ i \in DOMAIN tab : tab[i].k <= t })
Put(tab, r) == LET n == Below(tab, r.k) IN SubSeq(tab, 1, n) \o <<r>> \o SubSeq(tab, n + 1, Len(tab))

\* adding: only one copy per run of equal toe, the earliest transmitted; result and new table
Add(tab, r) ==
  LET n == Below(tab, r.k) IN
  IF r.k \in Keys(tab) THEN <<IF tab[n+1].toe = r.toe THEN "null" ELSE "bad", tab>>
  ELSE IF n < Len(tab) /\ tab[n+1].toe = r.toe
       THEN <<"new", SubSeq(tab, 1, n) \o <<r>> \o SubSeq(tab, n + 2, Len(tab))>>
  ELSE IF n > 0 /\ tab[n].toe = r.toe THEN <<"null", tab>>
  ELSE <<"new", Put(tab, r)>>

Valid(r, t) == r.b <= t /\ t <= r.e

\* what a receiver would be using: the most recently broadcast set, if still valid
User(tab, t) == LET n == UpTo(tab, t) IN IF n > 0 /\ Valid(tab[n], t) THEN {tab[n].id} ELSE {0}

\* the neighbour nearer in toe, else the other one, if valid (either one on a tie)
Near(tab, t) ==
  LET n == UpTo(tab, t)
      Ok(i) == i >= 1 /\ i <= Len(tab) /\ Valid(tab[i], t)
      Pick(i, j) == IF Ok(i) THEN tab[i].id ELSE IF Ok(j) THEN tab[j].id ELSE 0
  IN IF n > 0 /\ tab[n].k = t THEN {tab[n].id}
     ELSE IF n = 0 THEN {Pick(1, 1)}
     ELSE IF n = Len(tab) THEN {Pick(n, n)}
     ELSE LET d1 == t - tab[n].toe  d2 == tab[n+1].toe - t IN
          IF d1 < d2 THEN {Pick(n, n + 1)}
          ELSE IF d2 < d1 THEN {Pick(n + 1, n)}
          ELSE {Pick(n, n + 1), Pick(n + 1, n)}

Edit(tab, lo, hi) == SelectSeq(tab, LAMBDA r : lo <= r.k /\ r.k <= hi)

(* Rationalizing: an upload (toe off the hour, not continuing the same offset) *)
(* ends the validity of what was broadcast before; the second set with the     *)
(* same offset gets the validity its own times promise.                        *)
Offset(r) == r.toe % Hour
HourUp(t) == IF t % Hour = 0 THEN t ELSE t + Hour - (t % Hour)
Adjust(r) == [r EXCEPT !.b = IF r.toc % (2*Hour) = 0 THEN r.toc - (r.fit \div 2) * Hour ELSE r.x - (r.x % 5),
                       !.e = HourUp(r.toe) + (r.fit \div 2) * Hour]
RECURSIVE Trim(_, _, _)
Trim(tab, j, t) == IF j = 0 \/ (j > 0 /\ tab[j].e <= t) THEN tab
                   ELSE Trim([tab EXCEPT ![j].e = t], j - 1, t)
IsUpload(tab, i) == Offset(tab[i]) # 0 /\ (i = 1 \/ Offset(tab[i-1]) # Offset(tab[i]))
IsSecond(tab, i) == i > 1 /\ Offset(tab[i]) # 0 /\ Offset(tab[i-1]) = Offset(tab[i])
RECURSIVE Sweep(_, _)
Sweep(tab, i) ==
  IF i > Len(tab) THEN tab
  ELSE IF IsSecond(tab, i) THEN Sweep([tab EXCEPT ![i] = Adjust(tab[i])], i + 1)
  ELSE IF IsUpload(tab, i) THEN Sweep(Trim(tab, i - 1, tab[i].b), i + 1)
  ELSE Sweep(tab, i + 1)
RECURSIVE Sort(_)
Sort(tab) == IF tab = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in DOMAIN tab : \A j \in DOMAIN tab : tab[i].k <= tab[j].k
                  IN <<tab[m]>> \o Sort(SubSeq(tab, 1, m - 1) \o SubSeq(tab, m + 1, Len(tab)))
Rational(tab) == LET s == Sweep(tab, 1) IN Sort([ i \in DOMAIN s |-> [s[i] EXCEPT !.k = s[i].b] ])
\* a moved set landing on the place of another one is left open
Clash(tab) == LET s == Sweep(tab, 1) IN
  \E i, j \in DOMAIN s : i # j /\ s[i].b # tab[i].k /\ (s[i].b = s[j].b \/ s[i].b = tab[j].k)
=============================================================================
