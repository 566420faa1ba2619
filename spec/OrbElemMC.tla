----------------------------- MODULE OrbElemMC -----------------------------
EXTENDS OrbElem
CONSTANTS T, Toes, MaxAdds
VARIABLES tab, added
Rec(b, toe, len, h, id) == [k |-> b, toe |-> toe, toc |-> toe, b |-> b, e |-> toe + len, x |-> b, fit |-> 4, id |-> id, h |-> h]
Init == tab = <<>> /\ added = {}
AddOne == /\ Cardinality(added) < MaxAdds
          /\ \E b \in 0..T, toe \in Toes, len \in 0..1, h \in BOOLEAN : b <= toe /\
               LET r == Rec(b, toe, len, h, Cardinality(added) + 1)  q == AddElem(tab, r)
               IN tab' = q[2] /\ added' = added \cup {[r |-> r, res |-> q[1]]}
Spec == Init /\ [][AddOne]_<<tab, added>>
Ordered == \A i \in 1..(Len(tab)-1) : tab[i].k < tab[i+1].k /\ ~Same(tab[i], tab[i+1])
EarliestKept == \A a \in added : a.res # "bad" => \E i \in DOMAIN tab : Same(tab[i], a.r) /\ tab[i].k <= a.r.k
NearestTotal == tab # <<>> => \A t \in -1..(T+3) : 0 \notin Nearest(tab, t)
NearestUser == \A t \in -1..(T+3) : User(tab, t) # {0} => Nearest(tab, t) = User(tab, t)
=============================================================================
