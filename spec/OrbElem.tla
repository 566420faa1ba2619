------------------------------ MODULE OrbElem ------------------------------
(* The orbit-element store of the older interface: the tables of EphStore,     *)
(* but sameness is toe, health and end of validity, only one satellite system  *)
(* is admitted, and a miss of the user search falls back to the nearest set.   *)
EXTENDS EphStore
Same(a, b) == a.toe = b.toe /\ a.h = b.h /\ a.e = b.e
AddElem(tab, r) ==
  LET n == Below(tab, r.k) IN
  IF r.k \in Keys(tab) THEN <<IF Same(tab[n+1], r) THEN "old" ELSE "bad", tab>>
  ELSE IF n < Len(tab) /\ Same(tab[n+1], r)
       THEN <<"new", SubSeq(tab, 1, n) \o <<r>> \o SubSeq(tab, n + 2, Len(tab))>>
  ELSE IF n > 0 /\ Same(tab[n], r) THEN <<"old", tab>>
  ELSE <<"new", Put(tab, r)>>
\* the user's set if there is one, else the set nearest in time of validity; 0 = nothing stored
Nearest(tab, t) ==
  LET n == UpTo(tab, t) IN
  IF tab = <<>> THEN {0}
  ELSE IF User(tab, t) # {0} THEN User(tab, t)
  ELSE IF n = 0 THEN {tab[1].id}
  ELSE IF n = Len(tab) THEN {tab[n].id}
  ELSE LET dl == t - tab[n].e  dn == tab[n+1].k - t IN
       IF dl < dn THEN {tab[n].id} ELSE IF dn < dl THEN {tab[n+1].id} ELSE {tab[n].id, tab[n+1].id}
AtToe(tab, t) == { tab[i].id : i \in { j \in DOMAIN tab : tab[j].toe = t } }
\* second set of an upload: same offset and exactly two hours later; only its begin moves
Second2(tab, i) == i > 1 /\ Offset(tab[i]) # 0 /\ Offset(tab[i-1]) = Offset(tab[i]) /\ tab[i].toe - tab[i-1].toe = 2*Hour
Adjust2(r) == [r EXCEPT !.b = r.toc - (r.fit \div 2) * Hour]
RECURSIVE Sweep2(_, _)
Sweep2(tab, i) ==
  IF i > Len(tab) THEN tab
  ELSE IF Second2(tab, i) THEN Sweep2([tab EXCEPT ![i] = Adjust2(tab[i])], i + 1)
  ELSE IF IsUpload(tab, i) THEN Sweep2(Trim(tab, i - 1, tab[i].b), i + 1)
  ELSE Sweep2(tab, i + 1)
Rational2(tab) == LET s == Sweep2(tab, 1) IN Sort([ i \in DOMAIN s |-> [s[i] EXCEPT !.k = s[i].b] ])
Clash2(tab) == LET s == Sweep2(tab, 1) IN
  \E i, j \in DOMAIN s : i # j /\ s[i].b # tab[i].k /\ (s[i].b = s[j].b \/ s[i].b = tab[j].k)
=============================================================================
