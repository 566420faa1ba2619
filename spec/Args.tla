-------------------------------- MODULE Args ---------------------------------
(* The command line options of the applications.  A program declares options  *)
(* (short letter, long name, with or without an argument, required, limited   *)
(* in number, of a kind of value) and relations between them; the words given *)
(* are taken one option at a time by a machine, in order, up to the first     *)
(* word that is no option, and then judged.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Last(s) == Ch(s, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE PosOf(_, _, _)
PosOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE PosOf(s, c, i + 1)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == { Ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", i) : i \in 1..52 }
AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
Unsigned(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
\* a sign or a point alone is no number
IsNum(s) == Unsigned(s) # "" /\ AllIn(Unsigned(s), Digits)
IsDec(s) == (\E i \in 1..Len(s) : Ch(s, i) \in Digits) /\ AllIn(Unsigned(s), Digits \cup {"."}) /\ Cardinality({i \in 1..Len(s) : Ch(s, i) = "."}) <= 1
IsAlpha(s) == s # "" /\ AllIn(s, Letters)

-----------------------------------------------------------------------------
(* Options are records [k, s, l, a, req, max, n, mem]: kind, short letter and *)
(* long name ("" when there is none), with an argument, required, greatest    *)
(* number (0: any), the number of an N-of, members of a group.                *)
Plain == {"none", "any", "num", "dec", "alpha"}
Real(o) == o.k \in Plain
OptionOK(o) == Real(o) => (o.s # "" \/ o.l # "") /\ \A i \in 1..Len(o.l) : Ch(o.l, i) # " "
\* a set of options one parser can take
SetOK(os) == \A i, j \in 1..Len(os) : i < j =>
  /\ ~(os[i].s # "" /\ os[i].s = os[j].s)
  /\ ~(os[i].l # "" /\ os[i].l = os[j].l)
  /\ ~(os[i].k = "rest" /\ os[j].k = "rest")
RestOf(os) == {i \in 1..Len(os) : os[i].k = "rest"}

\* the state of the machine: next word, place in a cluster of letters (0: none), number of options met,
\* errors, and the occurrences of each option: <<its place in the order, its value>>
M0(os) == [i |-> 1, p |-> 0, n |-> 0, err |-> 0, got |-> [j \in 1..Len(os) |-> <<>>], end |-> FALSE]
ByShort(os, c) == {j \in 1..Len(os) : Real(os[j]) /\ os[j].s = c}
\* by name, or by the beginning of one name only
ByLong(os, name) ==
  LET exact == {j \in 1..Len(os) : Real(os[j]) /\ os[j].l = name /\ name # ""}
  IN IF exact # {} THEN exact ELSE {j \in 1..Len(os) : Real(os[j]) /\ os[j].l # "" /\ Starts(os[j].l, name)}
Bad(m) == [m EXCEPT !.n = @ + 1, !.err = @ + 1]
Take(m, j, v) == [m EXCEPT !.n = @ + 1, !.got[j] = Append(@, <<m.n + 1, v>>)]
Letter(os, ws, m, p) ==
  LET w == ws[m.i]
      S == ByShort(os, Ch(w, p))
      next == IF p = Len(w) THEN [m EXCEPT !.i = @ + 1, !.p = 0] ELSE [m EXCEPT !.p = p + 1]
      done == [m EXCEPT !.i = @ + 1, !.p = 0] IN
  IF S = {} THEN Bad(next)
  ELSE LET j == CHOOSE j \in S : TRUE IN
    IF ~os[j].a THEN Take(next, j, "")
    ELSE IF p < Len(w) THEN Take(done, j, SubSeq(w, p + 1, Len(w)))
    ELSE IF m.i < Len(ws) THEN Take([done EXCEPT !.i = @ + 1], j, ws[m.i + 1])
    ELSE Bad(done)
Name(os, ws, m) ==
  LET w == ws[m.i]
      eq == PosOf(w, "=", 3)
      name == IF eq = 0 THEN SubSeq(w, 3, Len(w)) ELSE SubSeq(w, 3, eq - 1)
      S == ByLong(os, name)
      done == [m EXCEPT !.i = @ + 1] IN
  IF Cardinality(S) # 1 THEN Bad(done)
  ELSE LET j == CHOOSE j \in S : TRUE IN
    IF ~os[j].a THEN (IF eq # 0 THEN Bad(done) ELSE Take(done, j, ""))
    ELSE IF eq # 0 THEN Take(done, j, SubSeq(w, eq + 1, Len(w)))
    ELSE IF m.i < Len(ws) THEN Take([done EXCEPT !.i = @ + 1], j, ws[m.i + 1])
    ELSE Bad(done)
\* the words left over, from word i: the trailing option has them, in order; without one they are an error
RECURSIVE Trail(_, _, _, _)
Trail(m, ws, i, j) == IF i > Len(ws) THEN m ELSE Trail(Take(m, j, ws[i]), ws, i + 1, j)
Rest(os, ws, m, i) ==
  LET e == [m EXCEPT !.end = TRUE] IN
  IF i > Len(ws) THEN e
  ELSE IF RestOf(os) = {} THEN [e EXCEPT !.err = @ + 1]
  ELSE Trail(e, ws, i, CHOOSE j \in RestOf(os) : TRUE)
Step(os, ws, m) ==
  IF m.i > Len(ws) THEN [m EXCEPT !.end = TRUE]
  ELSE LET w == ws[m.i] IN
    IF m.p > 0 THEN Letter(os, ws, m, m.p)
    ELSE IF w = "--" THEN Rest(os, ws, m, m.i + 1)
    ELSE IF ~Starts(w, "-") \/ w = "-" THEN Rest(os, ws, m, m.i)
    ELSE IF Starts(w, "--") THEN Name(os, ws, m)
    ELSE Letter(os, ws, m, 2)
RECURSIVE Run(_, _, _)
Run(os, ws, m) == IF m.end THEN m ELSE Run(os, ws, Step(os, ws, m))
Parse(os, ws) == Run(os, ws, M0(os))

-----------------------------------------------------------------------------
(* The judgement.                                                             *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Count(_, _, _)
Count(os, got, j) ==
  LET o == os[j]
      cs == [i \in 1..Len(o.mem) |-> Count(os, got, o.mem[i])] IN
  CASE o.k \in Plain \cup {"rest"} -> Len(got[j])
    [] o.k = "or" -> Sum(cs)
    [] o.k \in {"and", "allof"} -> (IF \E i \in 1..Len(cs) : cs[i] = 0 THEN 0 ELSE Sum(cs))
    [] OTHER -> 0
Used(os, got, o) == {i \in 1..Len(o.mem) : Count(os, got, o.mem[i]) > 0}
ValueOK(o, v) == CASE o.k = "num" -> IsNum(v) [] o.k = "dec" -> IsDec(v) [] o.k = "alpha" -> IsAlpha(v) [] OTHER -> TRUE
\* the errors an option makes: 0, 1 or 2
Errs(os, got, j) ==
  LET o == os[j]
      used == Used(os, got, o)
      B(x) == IF x THEN 1 ELSE 0 IN
  CASE o.k \in Plain \cup {"rest"} ->
         B((o.req /\ got[j] = <<>>) \/ \E i \in 1..Len(got[j]) : ~ValueOK(o, got[j][i][2])) + B(o.max # 0 /\ Len(got[j]) > o.max)
    [] o.k = "oneof" -> B(used = {})
    [] o.k = "mutex" -> B(Cardinality(used) > 1 \/ (o.req /\ used = {}))
    [] o.k = "allof" -> B(used # {} /\ used # 1..Len(o.mem))
    [] o.k = "nof" -> LET c == Sum([i \in 1..Len(o.mem) |-> Count(os, got, o.mem[i])]) IN B(c < o.n \/ c > o.max)
    [] o.k = "dep" -> B(2 \in used /\ 1 \notin used)
    [] OTHER -> 0
Errors(os, m) == m.err + Sum([j \in 1..Len(os) |-> Errs(os, m.got, j)])
\* the members of a group that were used, the first one
Which(os, got, j) == SelectSeq(os[j].mem, LAMBDA i : Count(os, got, i) > 0)
=============================================================================
