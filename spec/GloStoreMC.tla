----------------------------- MODULE GloStoreMC -----------------------------
EXTENDS GloStore
CONSTANTS T, N
VARIABLES tab, last
Init == tab = <<>> /\ last = [x \in {} |-> 0]
Next == \/ /\ Cardinality(DOMAIN last) < N + 1
           /\ \E t \in 0..T, id \in 1..2 : /\ tab' = Put(tab, [t |-> t, id |-> 10*id + t, h |-> TRUE])
                                            /\ last' = [x \in DOMAIN last \cup {t} |-> IF x = t THEN 10*id + t ELSE last[x]]
        \/ \E lo, hi \in 0..T : lo <= hi /\ tab' = Edit(tab, lo, hi) /\ last' = [x \in { y \in DOMAIN last : lo <= y /\ y <= hi } |-> last[x]]
Spec == Init /\ [][Next]_<<tab, last>>
\* the table is the map from epoch to the last record given for it
IsMap == /\ { tab[i].t : i \in DOMAIN tab } = DOMAIN last /\ Len(tab) = Cardinality(DOMAIN last)
         /\ \A i \in DOMAIN tab : last[tab[i].t] = tab[i].id /\ (i > 1 => tab[i-1].t < tab[i].t)
Sound == \A t \in -5..(T+5) : LET p == Pick(tab, t) IN p # 0 => \E i \in DOMAIN tab : tab[i].id = p /\ tab[i].t - Half <= t /\ t < tab[i].t + Half
Complete == \A t \in -5..(T+5) : (\E i \in DOMAIN tab : tab[i].t - Half < t /\ t < tab[i].t + Half) => Pick(tab, t) # 0
\* with the standard spacing of 2*Half the nearest record is used
Nearest == (\A i \in 2..Len(tab) : tab[i].t - tab[i-1].t >= 2*Half) => \A t \in -5..(T+5) : LET p == Pick(tab, t) IN
   p # 0 => \A i, j \in DOMAIN tab : tab[i].id = p =>
      (IF tab[i].t > t THEN tab[i].t - t ELSE t - tab[i].t) <= (IF tab[j].t > t THEN tab[j].t - t ELSE t - tab[j].t)
=============================================================================
