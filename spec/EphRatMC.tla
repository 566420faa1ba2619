------------------------------ MODULE EphRatMC ------------------------------
(* Rationalizing every table of up to N records drawn from a grid around a    *)
(* cutover: what it promises, and that doing it twice changes nothing.        *)
EXTENDS EphStore
CONSTANTS N, Toes
VARIABLE tab
Recs == { [k |-> b, toe |-> toe, toc |-> toe, b |-> b, e |-> HourUp(toe) + 2*Hour, x |-> b, fit |-> 4, id |-> 1, h |-> TRUE] :
          toe \in Toes, b \in {0, 600, 1200, 1235, 1800, 2400} }
Init == tab = <<>>
Next == /\ Len(tab) < N
        /\ \E r \in Recs : /\ r.b <= r.toe
                           /\ IF tab = <<>> THEN TRUE ELSE (r.k > tab[Len(tab)].k /\ r.toe # tab[Len(tab)].toe)
                           /\ tab' = Append(tab, r)
Spec == Init /\ [][Next]_tab
R == Rational(tab)
SameSets == ~Clash(tab) => Len(R) = Len(tab) /\ { R[i].toe : i \in DOMAIN R } = { tab[i].toe : i \in DOMAIN tab }
KeysAreBegins == \A i \in DOMAIN R : R[i].k = R[i].b
\* an upload ends the set before it
UploadCuts == ~Clash(tab) => LET s == Sweep(tab, 1) IN
   \A i \in 2..Len(tab) : (IsUpload(tab, i) /\ tab[i].k >= tab[i-1].k) =>
        s[i-1].e <= tab[i].b \/ s[i-1].e <= s[i].b
\* validity is never lengthened for sets that are not second sets of an upload
OnlyShorter == LET s == Sweep(tab, 1) IN \A i \in DOMAIN tab : ~IsSecond(tab, i) => s[i].e <= tab[i].e /\ s[i].b = tab[i].b
NoUploadNoChange == (\A i \in DOMAIN tab : Offset(tab[i]) = 0) => R = tab
\* doing it twice moves no set and changes nothing but the end of second sets
Twice == (~Clash(tab) /\ ~Clash(R) /\ (\A i \in 2..Len(tab) : tab[i].toe > tab[i-1].toe) /\ \A i \in DOMAIN tab : R[i].toe = tab[i].toe) =>
   LET q == Rational(R) IN \A i \in DOMAIN R : q[i].k = R[i].k /\ q[i].toe = R[i].toe /\ (~IsSecond(R, i) => q[i].e = R[i].e)
=============================================================================
