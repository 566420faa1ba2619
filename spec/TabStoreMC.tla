----------------------------- MODULE TabStoreMC -----------------------------
(* All small tables: the windows are what their description says.              *)
EXTENDS TabStore
CONSTANTS T, N
VARIABLES tab
Times == 0..T
Init == tab = <<>>
Add(t, p) == tab' = Put(tab, [t |-> t, p |-> p, v |-> 0, a |-> 0])
Next == \/ \E t \in Times : ~Has(tab, t) /\ Add(t, t % 3)
        \/ \E lo, hi \in Times : lo <= hi /\ tab' = Keep(tab, lo, hi)
Spec == Init /\ [][Next]_tab
Ordered == \A i \in 1..(Len(tab)-1) : tab[i].t < tab[i+1].t
Gs == {-1, 1, 2}
InTab(w) == w = None \/ (1 <= w[1] /\ w[2] <= Len(tab))
WinOK == \A t \in Times, n \in 1..N, g \in Gs, x \in {-1, 3} :
  LET c == Centered(tab, t, n, g, x)  o == Off(tab, t, n, g, x)
      lft == { i \in DOMAIN tab : tab[i].t < t }  rgt == { i \in DOMAIN tab : tab[i].t >= t }
  IN /\ InTab(c) /\ InTab(o)
     /\ \A w \in {c, o} : w # None => w[2] - w[1] = 2*n - 1 /\ ~Wide(tab, w, x)
     /\ c # None => tab[c[1]].t <= t /\ t <= tab[c[2]].t
     /\ o # None => t <= tab[o[2]].t
     \* a time between entries is exactly in the middle, and refused only for a reason
     /\ ~Has(tab, t) => /\ c # None => Cardinality({ i \in lft : i >= c[1] }) = n
                        /\ (c = None) = (Cardinality(lft) < n \/ Cardinality(rgt) < n \/ Gap(tab, Cardinality(lft), g)
                                          \/ Wide(tab, <<Cardinality(lft)-n+1, Cardinality(lft)+n>>, x))
     \* when a centred window exists without checks, both searches agree on it
     /\ (g = -1 /\ x = -1 /\ Cardinality(lft) >= n /\ Cardinality(rgt) >= n) => c = o /\ c # None
\* an interpolated line passes through its entries
LineOK == \A n \in 1..N, t \in Times : LET w == Off(tab, t, n, -1, -1) IN
  (w # None /\ Line(tab, w, "p")) => \A i \in w[1]..w[2] : Value(tab, w, "p", tab[i].t) = tab[i].p * Step(tab, w)
=============================================================================
