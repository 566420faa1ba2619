------------------------------ MODULE FileFindMC -----------------------------
(* Searching a tree level by level, looking only into what can hold a file    *)
(* that is asked for, finds what the definition says, whatever the order of   *)
(* looking; names give back their times; lists are put in order.              *)
EXTENDS FileFind
Fx(s) == [f |-> s, c |-> "", w |-> 0, z |-> 0]
Fd(c, w) == [f |-> "", c |-> c, w |-> w, z |-> 1]
Specs == {
  << <<Fd("Y",4)>>, <<Fd("n",2)>>, <<Fd("j",3)>>, <<Fx("a"), Fd("H",2), Fd("M",2)>> >>,
  << <<Fd("F",4)>>, <<Fd("n",2), Fx("-"), Fd("w",1)>> >>,
  << <<Fd("y",2), Fd("m",2)>>, <<Fx("d"), Fd("n",2), Fd("y",2), Fd("m",2), Fd("d",2), Fd("H",2)>> >>,
  << <<Fx("x")>>, <<Fd("n",2)>> >>,
  << <<Fd("F",4), Fd("r",1)>>, <<Fd("n",2)>> >> }
\* about the turn of the year 2018 and of a week (30 December 2018 was a Sunday)
Times == {<<2458482, 86399, 0>>, <<2458483, 0, 0>>, <<2458484, 43200, 0>>, <<2458484, 86399, 500000>>, <<2458485, 0, 0>>, <<2458485, 3660, 0>>, <<2458486, 0, 0>>, <<2458515, 60, 0>>}
Vals == { << <<"n", "1">>, <<"r", "1">> >>, << <<"n", "02">>, <<"r", "2">> >> }
NameAll(s, vs, t) == [k \in 1..Len(s) |-> Name(s[k], vs, t)]
Junk(s) == { [p EXCEPT ![1] = p[1] \o "0"] : p \in {NameAll(s, v, <<2458485, 0, 0>>) : v \in Vals} }
TreeOf(s) == {NameAll(s, v, t) : v \in Vals, t \in Times} \cup Junk(s)
Filters == { <<>>, << <<"n", <<"01">>>> >>, << <<"n", <<"02", "01">>>>, <<"j", <<"001">>>> >> }
CONSTANT Ends
Ends3 == {<<2458483, 0, 0>>, <<2458484, 86399, 500000>>, <<2458485, 3660, 0>>}
VARIABLES sp, from, to, filt, front, found
vars == <<sp, from, to, filt, front, found>>
TreeFn == [s \in Specs |-> TreeOf(s)]
Tree == TreeFn[sp]
Init == /\ sp \in Specs /\ from \in Ends /\ to \in Ends /\ filt \in Filters
        /\ front = {<<>>} /\ found = {}
\* looking into one place: of what is there, what may lead on
Inside(p) == {SubSeq(q, 1, Len(p) + 1) : q \in {q \in Tree : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}}
Leads(q) ==
  LET k == Len(q)  lv == Flat(SubSeq(sp, 1, k)) IN
  /\ MatchLevel(sp[k], q[k], FALSE)
  /\ Kinds(sp[k]) \cap TimeKinds # {} => InTime(lv, TimeIn(lv, Path(q)), from, to)
  /\ \A i \in 1..Len(filt) : filt[i][1] \in Kinds(sp[k]) => FirstOf(lv, Path(q), filt[i][1]) \in {filt[i][2][j] : j \in 1..Len(filt[i][2])}
\* one place after the other; AnyOrder: in whatever order
CONSTANTS AnyOrder
Look == front # {} /\ \E p \in IF AnyOrder THEN front ELSE {CHOOSE p \in front : TRUE} :
  LET ok == {q \in Inside(p) : Leads(q)} IN
  /\ front' = (front \ {p}) \cup {q \in ok : Len(q) < Len(sp)}
  /\ found' = found \cup {q \in ok : Len(q) = Len(sp)}
  /\ UNCHANGED <<sp, from, to, filt>>
Next == Look
Spec == Init /\ [][Next]_vars
Complete == front = {} => found = Find(Tree, sp, from, to, filt)
OnlyWanted == found \subseteq Find(Tree, sp, from, to, filt)
\* a period is asked for or not, never half
NoneLost == front = {} /\ filt = <<>> /\ Le(from, to) => \A t \in Times, v \in Vals :
  (Le(from, t) /\ Lt(t, to)) => NameAll(sp, v, t) \in found
Laws == front = {<<>>} => \A s \in {sp}, t \in Times, v \in Vals :
  LET lv == Flat(s)  p == NameAll(s, v, t) IN
  /\ Path(p) = Name(lv, v, t)
  /\ Match(s, p, FALSE)
  /\ (Kinds(lv) \cap TimeKinds # {} => TimeIn(lv, Path(p)) = Trunc(lv, t) /\ Le(Trunc(lv, t), t) /\ Trunc(lv, Trunc(lv, t)) = Trunc(lv, t))
  /\ Hunt(Tree, s, from, to, "DAY", <<>>) \subseteq Hunt(Tree, s, from, to, "WEEK", <<>>)
=============================================================================
