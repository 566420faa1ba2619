------------------------------ MODULE FileSortMC -----------------------------
(* Lists of names that grow in every way: what is put in order is all that is *)
(* latest, in order, those of one place as they came.                         *)
EXTENDS FileFind
Fx(s) == [f |-> s, c |-> "", w |-> 0, z |-> 0]
Fd(c, w) == [f |-> "", c |-> c, w |-> w, z |-> 1]
Lv == <<Fd("j",1), Fd("v",1), Fx("."), Fd("n",1)>>
Lv0 == <<Fd("j",1), Fd("p",1), Fx("."), Fd("n",1)>>
Names == { j \o v \o "." \o n : j \in {"1","2"}, v \in {"1","2"}, n \in {"a","b"} }
VARIABLE list
Init == list = <<>>
Next == Len(list) < 3 /\ \E n \in Names, d \in {"", "b/"} : list' = Append(list, d \o n)
Spec == Init /\ [][Next]_list
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Ordered(lv, s, d) == \A i \in 1..Len(s)-1 : ~Before(lv, s[i+1], s[i], d)
Same(lv, a, b) == KeyVals(lv, FileOf(a)) = KeyVals(lv, FileOf(b))
Laws == \A d \in {0, 1} :
  LET s == SortList(Lv0, list, d)  v == SortList(Lv, list, d)  o == InOrder(Lv, list, d) IN
  /\ Len(s) = Len(list) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(list, s[i])
  /\ Ordered(Lv0, s, d)
  /\ SortList(Lv0, s, d) = s
  /\ \A i \in 1..Len(s) : SelectSeq(s, LAMBDA x : Same(Lv0, x, s[i])) = SelectSeq(list, LAMBDA x : Same(Lv0, x, s[i]))
  /\ Ordered(Lv, v, d)
  /\ \A i \in 1..Len(list) : \E k \in 1..Len(v) : Bare(Lv, v[k]) = Bare(Lv, list[i]) /\ ~SLess(Version(Lv, v[k]), Version(Lv, list[i]), 1)
  /\ \A i, k \in 1..Len(v) : Bare(Lv, v[i]) = Bare(Lv, v[k]) => Version(Lv, v[i]) = Version(Lv, v[k])
=============================================================================
