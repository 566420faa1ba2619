----------------------------- MODULE EphStoreMC -----------------------------
(* Every history of up to MaxAdds additions and edits on one satellite. *)
EXTENDS EphStore
CONSTANTS T, Toes, MaxAdds, Near_
VARIABLES tab, added, edited
vars == <<tab, added, edited>>
Rec(b, toe, len, id) == [k |-> IF Near_ THEN toe ELSE b, toe |-> toe, toc |-> toe, b |-> b, e |-> toe + len, x |-> b, fit |-> 4, id |-> id, h |-> TRUE]
Init == tab = <<>> /\ added = {} /\ edited = FALSE
AddOne == /\ Cardinality(added) < MaxAdds
          /\ \E b \in 0..T, toe \in Toes : b <= toe /\
               LET r == Rec(b, toe, 1, Cardinality(added) + 1)  q == Add(tab, r)
               IN tab' = q[2] /\ added' = added \cup {[r |-> r, res |-> q[1]]} /\ UNCHANGED edited
Cut == \E lo, hi \in 0..T : lo <= hi /\ tab' = Edit(tab, lo, hi) /\ edited' = TRUE /\ UNCHANGED added
Next == AddOne \/ Cut
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 1..(Len(tab)-1) : tab[i].k < tab[i+1].k /\ tab[i].toe # tab[i+1].toe
\* nothing is invented, and a refusal happens only for a conflicting start time
FromInput == \A i \in DOMAIN tab : \E a \in added : a.r = tab[i] /\ a.res = "new"
\* the earliest copy of every toe is kept (until edited away)
EarliestKept == ~edited => \A a \in added : a.res # "bad" =>
    \E i \in DOMAIN tab : tab[i].toe = a.r.toe /\ tab[i].k <= a.r.k
\* the user search returns the latest broadcast not after t, and only a valid one
UserRight == \A t \in 0..(T+3) : \A id \in User(tab, t) :
    IF id = 0 THEN \A i \in DOMAIN tab : (tab[i].k <= t /\ Valid(tab[i], t)) => \E j \in DOMAIN tab : tab[j].k > tab[i].k /\ tab[j].k <= t
    ELSE \E i \in DOMAIN tab : tab[i].id = id /\ tab[i].b <= t /\ t <= tab[i].e /\ ~\E j \in DOMAIN tab : tab[j].k > tab[i].k /\ tab[j].k <= t
Dist(i, t) == IF tab[i].toe > t THEN tab[i].toe - t ELSE t - tab[i].toe
NearRight == Near_ => \A t \in 0..(T+3) : \A id \in Near(tab, t) :
    /\ id # 0 => \E i \in DOMAIN tab : tab[i].id = id /\ (Valid(tab[i], t) \/ tab[i].k = t)
    /\ \A i \in DOMAIN tab : (id # 0 /\ tab[i].id = id) =>
         \A j \in DOMAIN tab : (Valid(tab[j], t) /\ j \in {UpTo(tab, t), UpTo(tab, t) + 1}) => Dist(i, t) <= Dist(j, t)
EditRight == edited => \A i \in DOMAIN tab : tab[i].k \in 0..T + 3
=============================================================================
