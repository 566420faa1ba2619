------------------------------ MODULE TimeRange ------------------------------
(* Time ranges over a dense time line.  Instants are the even numbers 0..2N-2,  *)
(* the odd numbers stand for "some time between two neighbouring instants", so  *)
(* a range is the set of half-steps it covers.  A range is                      *)
(* <<start, end, start included, end included>>.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
Instants == { 2*i : i \in 0..(N-1) }
Line == -1..(2*N - 1)
Valid(r) == ~(r[2] < r[1])
Points(r) == { p \in Line : /\ r[1] < p \/ (r[1] = p /\ r[3])
                            /\ p < r[2] \/ (p = r[2] /\ r[4]) }
\* [a,a) and the like hold no instant (as "included" at one end alone cannot be met) ...
Proper(r) == r[1] < r[2] \/ (r[3] /\ r[4])
\* membership as documented: an included boundary instant is in the range
InRange(r, p) == \/ r[1] < p /\ p < r[2]
                 \/ p = r[1] /\ r[3]
                 \/ p = r[2] /\ r[4]
Equal(a, b) == a = b
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[3] /\ ~b[3])
PriorTo(a, b) == \A p \in Points(a), q \in Points(b) : p < q
After(a, b) == PriorTo(b, a)
Overlaps(a, b) == Points(a) \cap Points(b) # {}
\* documented on the end points alone, whatever the inclusion flags
SubsetOf(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
=============================================================================
