------------------------------- MODULE ArgsMC --------------------------------
(* Every command line of up to MaxWords words of a small alphabet is taken    *)
(* step by step: the machine ends, uses up every word, numbers what it meets  *)
(* in order, and a line means the same when it is written out in full.        *)
EXTENDS Args
CONSTANTS MaxWords
O(k, s, l, a) == [k |-> k, s |-> s, l |-> l, a |-> a, req |-> FALSE, max |-> 0, n |-> 0, mem |-> <<>>]
Os == << O("none", "a", "", FALSE), O("any", "b", "bb", TRUE), O("none", "", "bca", FALSE), O("rest", "", "", FALSE) >>
Words == {"-a", "-ab", "-ba", "-aab1", "-x", "--bb", "--bb=1", "--bc", "--b", "--bca=1", "--", "-", "1"}
VARIABLES ws, m
Init == ws \in UNION {[1..n -> Words] : n \in 0..MaxWords} /\ m = M0(Os)
Next == ~m.end /\ m' = Step(Os, ws, m) /\ UNCHANGED ws
Spec == Init /\ [][Next]_<<ws, m>>
All == UNION {{m.got[j][i][1] : i \in 1..Len(m.got[j])} : j \in 1..Len(Os)}
Found == Sum([j \in 1..Len(Os) |-> Len(m.got[j])])
Ordered == \A j \in 1..Len(Os) : \A i, k \in 1..Len(m.got[j]) : i < k => m.got[j][i][1] < m.got[j][k][1]
Counted == Cardinality(All) = Found /\ All \subseteq 1..m.n
EndsRight == m.end => Found + m.err = m.n
\* written out in full
Full(j, v) == CASE j = 1 -> <<"-a">> [] j = 2 -> <<"--bb=" \o v>> [] j = 3 -> <<"--bca">> [] j = 4 -> <<>>
RECURSIVE Whole(_)
Whole(i) == IF i > m.n THEN <<>>
            ELSE LET j == CHOOSE j \in 1..Len(Os) : \E x \in 1..Len(m.got[j]) : m.got[j][x][1] = i
                     x == CHOOSE x \in 1..Len(m.got[j]) : m.got[j][x][1] = i IN Full(j, m.got[j][x][2]) \o Whole(i + 1)
Tail4 == [i \in 1..Len(m.got[4]) |-> m.got[4][i][2]]
Canonical == (m.end /\ m.err = 0) => Parse(Os, Whole(1) \o <<"--">> \o Tail4).got = m.got
=============================================================================
