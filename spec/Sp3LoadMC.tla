----------------------------- MODULE Sp3LoadMC -----------------------------
(* All short files: what is read is what a record-by-record reading of the     *)
(* file would say, whatever the order of lines and the rejection options.      *)
EXTENDS Sp3Load
CONSTANTS N
VARIABLES lines, inrec    \* inrec: what may follow: "none", "P", "EP", "V", "EV"
Init == lines = <<>> /\ inrec = "none"
P(s, z, c, op) == [k |-> "P", s |-> s, x |-> <<1, z, 3>>, c |-> c, g |-> <<1, 2, 0, 3>>, op |-> op, cp |-> ~op]
Ep == Cardinality({ i \in DOMAIN lines : lines[i].k = "*" })
Add(ln, st) == lines' = Append(lines, ln) /\ inrec' = st
Next == /\ Len(lines) < N
        /\ \/ Add([k |-> "*", t |-> Ep], "E")
           \/ inrec # "none" /\ \E s \in 1..2, z \in {0, 2}, c \in {5, 999999000}, op \in BOOLEAN : Add(P(s, z, c, op), "P")
           \/ inrec = "P" /\ Add([k |-> "EP", d |-> <<7, 8, 9, 10>>], "EP")
           \/ inrec \in {"P", "EP"} /\ Add([k |-> "V", x |-> <<4, 5, 6>>, c |-> 11, g |-> <<0, 1, 2, 4>>], "V")
           \/ inrec = "V" /\ Add([k |-> "EV", d |-> <<12, 13, 14, 15>>], "EV")
Spec == Init /\ [][Next]_<<lines, inrec>>
F == [ver |-> "c", bpv |-> 2, bclk |-> 3, lines |-> lines]
Opts == { [badp |-> a, badc |-> b, predp |-> c, predc |-> d] : a, b, c, d \in BOOLEAN }
\* declaratively: the P lines that are not rejected, the last of a satellite and epoch counting
EpOf(i) == Cardinality({ j \in 1..i : lines[j].k = "*" }) - 1
Ps(s, t) == { i \in DOMAIN lines : lines[i].k = "P" /\ lines[i].s = s /\ EpOf(i) = t }
Taken(o, fill, i) == ~(o.badp /\ lines[i].x[2] = 0) /\ ~(fill /\ o.badc /\ lines[i].c >= 999999000)
TakenP(o, fill, i) == Taken(o, fill, i) /\ ~(o.predp /\ lines[i].op)
TakenC(o, fill, i) == fill /\ Taken(o, fill, i) /\ ~(o.predc /\ lines[i].cp)
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Has(i, k) == \E j \in i+1..Len(lines) : lines[j].k = k /\ \A q \in i+1..j : lines[q].k \notin {"P", "*"}
Right == \A o \in Opts, fill \in BOOLEAN : LET r == Load(F, o, fill, <<>>, <<>>) IN
  \A s \in 1..2, t \in 0..N :
    LET A == { i \in Ps(s, t) : TakenP(o, fill, i) }  B == { i \in Ps(s, t) : TakenC(o, fill, i) } IN
    /\ (<<s, t>> \in DOMAIN r[1]) = (A # {}) /\ (<<s, t>> \in DOMAIN r[2]) = (B # {})
    /\ A # {} => LET i == Last(A)  q == r[1][<<s, t>>] IN
        /\ q.p = lines[i].x /\ q.sp = (IF Has(i, "EP") THEN <<7, 8, 9>> ELSE <<2, 4, 1>>)
        /\ q.v = (IF Has(i, "V") THEN <<4, 5, 6>> ELSE Zero3)
        /\ q.sv = (IF Has(i, "EV") THEN <<12, 13, 14>> ELSE IF Has(i, "V") THEN <<1, 2, 4>> ELSE Zero3)
    /\ B # {} => LET i == Last(B)  q == r[2][<<s, t>>] IN
        /\ q.b = lines[i].c /\ q.sb = (IF Has(i, "EP") THEN 10 ELSE 27)
        /\ q.d = (IF Has(i, "V") THEN 11 ELSE 0) /\ q.sd = (IF Has(i, "EV") THEN 15 ELSE IF Has(i, "V") THEN 81 ELSE 0)
=============================================================================
