------------------------------- MODULE NavFilt -------------------------------
(* The chain of filters that navigation messages go through.  A filter takes   *)
(* a list of messages and at once, or later, passes on or rejects each; the    *)
(* manager gives each filter what the one before passed on, and in the end     *)
(* lets every filter, in order, give up what it still holds.                   *)
(* A message is [id, t, prn, key, w]: time, satellite, source, words.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Test(_, _),     \* a filter by words only: does the message pass?
          Change(_, _),   \* what a filter makes of the words
          Slot(_),        \* which of the three parts of an ephemeris the words are (0: none)
          Fits(_, _, _)   \* the three parts belong together

Range(s) == {s[i] : i \in 1..Len(s)}
Pick(s, P(_)) == SelectSeq(s, P)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
RECURSIVE ByTime(_)
ByTime(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET t == Least({s[i].t : i \in 1..Len(s)}) IN Pick(s, LAMBDA m : m.t = t) \o ByTime(Pick(s, LAMBDA m : m.t # t))

\* a filter: [k, total, same, depth, epoch]; its memory: what it holds, and its time
Held0 == [held |-> <<>>, t |-> -1, eph |-> <<>>, full |-> <<>>]
R(st, out, rej) == [st |-> st, out |-> out, rej |-> rej]

\* ---- votes: the messages of one satellite at one time ----------------------------
Votes(ms, w) == Cardinality({i \in 1..Len(ms) : ms[i].w = w})
\* the contents that can win: none has more votes, and there are enough
Winners(f, ms) ==
  LET W == {ms[i].w : i \in 1..Len(ms)}
      best == {w \in W : \A v \in W : Votes(ms, v) <= Votes(ms, w)} IN
  IF Len(ms) < f.total THEN {} ELSE {w \in best : Votes(ms, w) >= f.same}
\* of equals, the one none of whose messages is known to be rejected
TheWinner(f, ms, known) ==
  LET W == Winners(f, ms)
      ok == {w \in W : \A i \in 1..Len(ms) : ms[i].w = w => ms[i].id \notin known} IN
  IF W = {} THEN {} ELSE IF Cardinality(W) = 1 \/ ok = {} THEN {CHOOSE w \in W : TRUE} ELSE {CHOOSE w \in ok : TRUE}
Decide(f, held, known) ==
  LET sats == Sorted({held[i].prn : i \in 1..Len(held)})
      one == [k \in 1..Len(sats) |->
               LET ms == Pick(held, LAMBDA m : m.prn = sats[k])  w == TheWinner(f, ms, known) IN
               << Pick(ms, LAMBDA m : m.w \in w), Pick(ms, LAMBDA m : m.w \notin w) >>]
  IN << Flat([k \in 1..Len(sats) |-> one[k][1]]), Flat([k \in 1..Len(sats) |-> one[k][2]]) >>
RECURSIVE Cross(_, _, _, _)
Cross(f, r, in, known) ==
  IF in = <<>> THEN r
  ELSE LET m == in[1] IN
    IF r.st.t = m.t THEN Cross(f, R([r.st EXCEPT !.held = Append(@, m)], r.out, r.rej), Tail(in), known)
    ELSE LET d == Decide(f, r.st.held, known) IN
      Cross(f, R([r.st EXCEPT !.held = <<m>>, !.t = m.t], r.out \o d[1], r.rej \o d[2]), Tail(in), known)

\* ---- order: messages wait for those that are up to depth epochs late ----------------
Newest(held) == Most({held[i].t : i \in 1..Len(held)})
Order(f, st, in) ==
  LET lag == f.depth * f.epoch
      late(m) == IF st.held = <<>> THEN FALSE ELSE m.t < Newest(st.held) - lag
      all == st.held \o Pick(in, LAMBDA m : ~late(m))
      old(m) == m.t <= Newest(all) - lag
  IN IF all = <<>> THEN R(st, <<>>, Pick(in, late))
     ELSE R([st EXCEPT !.held = Pick(all, LAMBDA m : ~old(m))], ByTime(Pick(all, old)), Pick(in, late))

\* ---- ephemerides: the three parts from one source ------------------------------------
\* eph is a list of <<key, <<part 1, part 2, part 3>>>>, a part being <<>> or <<message>>
At(eph, key) == {i \in 1..Len(eph) : eph[i][1] = key}
RECURSIVE Ephs(_, _)
Ephs(r, in) ==
  IF in = <<>> THEN r
  ELSE LET m == in[1]  s == Slot(m.w) IN
    IF s = 0 THEN Ephs(R(r.st, Append(r.out, m), r.rej), Tail(in))
    ELSE LET e0 == IF At(r.st.eph, m.key) = {} THEN Append(r.st.eph, <<m.key, << <<>>, <<>>, <<>> >> >>) ELSE r.st.eph
             i == CHOOSE i \in At(e0, m.key) : TRUE
             e == [e0 EXCEPT ![i][2][s] = <<m>>]
             p == e[i][2]
             done == IF \E j \in 1..3 : p[j] = <<>> THEN FALSE ELSE Fits(p[1][1].w, p[2][1].w, p[3][1].w)
         IN Ephs(R([r.st EXCEPT !.eph = e, !.full = IF done THEN Append(@, m.key) ELSE @], r.out, r.rej), Tail(in))

\* ---- one filter ------------------------------------------------------------------------
Step(f, st, in, known) ==
  CASE f.k = "cross" -> Cross(f, R(st, <<>>, <<>>), in, known)
    [] f.k = "order" -> Order(f, st, in)
    [] f.k = "eph" -> Ephs(R([st EXCEPT !.full = <<>>], <<>>, <<>>), in)
    [] f.k = "cook" -> R(st, [i \in 1..Len(in) |-> [in[i] EXCEPT !.w = Change(f.fmt, in[i].w)]], <<>>)
    [] OTHER -> R(st, Pick(in, LAMBDA m : Test(f, m)), Pick(in, LAMBDA m : ~Test(f, m)))
Fin(f, st, known) ==
  CASE f.k = "cross" -> LET d == Decide(f, st.held, known) IN R(Held0, d[1], d[2])
    [] f.k = "order" -> R(Held0, ByTime(st.held), <<>>)
    [] OTHER -> R(Held0, <<>>, <<>>)

\* ---- the chain: [sts, out, rejs]; a filter gets only what there is --------------------
RECURSIVE Chain(_, _, _, _, _, _)
Chain(fs, sts, rejs, k, in, known) ==
  IF k > Len(fs) \/ in = <<>> THEN [sts |-> sts, out |-> in, rejs |-> rejs]
  ELSE LET r == Step(fs[k], sts[k], in, known[k])
       IN Chain(fs, [sts EXCEPT ![k] = r.st], [rejs EXCEPT ![k] = @ \o r.rej], k + 1, r.out, known)
NoRej(fs) == [k \in 1..Len(fs) |-> <<>>]
Give(fs, sts, in, known) == Chain(fs, sts, NoRej(fs), 1, in, known)
RECURSIVE End(_, _, _, _, _, _)
End(fs, sts, rejs, out, k, known) ==
  IF k > Len(fs) THEN [sts |-> sts, out |-> out, rejs |-> rejs]
  ELSE LET r == Fin(fs[k], sts[k], known[k])
           c == Chain(fs, [sts EXCEPT ![k] = r.st], [rejs EXCEPT ![k] = @ \o r.rej], k + 1, r.out, known)
       IN End(fs, c.sts, c.rejs, out \o c.out, k + 1, known)
Finish(fs, sts, known) == End(fs, sts, NoRej(fs), <<>>, 1, known)
Depth(fs) == 1 + LET RECURSIVE S(_)  S(k) == IF k > Len(fs) THEN 0 ELSE (CASE fs[k].k = "cross" -> 1 [] fs[k].k = "order" -> fs[k].depth [] fs[k].k = "eph" -> 3 [] OTHER -> 0) + S(k + 1) IN S(1)
=============================================================================
