------------------------------- MODULE InForce ------------------------------
(* What is in force at a time: weather observations, models of the ionosphere, *)
(* numbers of satellites, and the description of satellites from files.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SvnTable
SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- things kept by time: a set of records with a field t, one for each t ----------
Before(S, t) == {x \in S : x.t <= t}
After(S, t) == {x \in S : x.t > t}
Latest(S) == CHOOSE x \in S : \A y \in S : y.t <= x.t
Earliest(S) == CHOOSE x \in S : \A y \in S : y.t >= x.t
Put(S, x) == {y \in S : y.t # x.t} \cup {x}
\* ---- weather: [t, temp, pres, hum, ok] ---------------------------------------------------
Recent(S, t) == IF Before(S, t) # {} THEN Latest(Before(S, t)) ELSE Earliest(S)
\* those the answer is made of: none, one, or the two around t
Near(S, t, iv) ==
  LET b == IF Before(S, t) = {} THEN {} ELSE {Latest(Before(S, t))}
      a == IF After(S, t) = {} THEN {} ELSE {Earliest(After(S, t))}
  IN {x \in a \cup b : Abs(x.t - t) <= iv}
Closer(N, t) == LET b == Latest({x \in N : x.t <= t})  a == Earliest({x \in N : x.t > t})
  IN IF a.t - t < t - b.t THEN a ELSE b
\* values are given in 64ths
Between(b, a, t, vb, va, got) == Abs(got * (a.t - b.t) - 64 * ((va - vb) * (t - b.t) + vb * (a.t - b.t))) <= a.t - b.t
Is64(x, r) == r.t = x.t /\ r.temp = 64 * x.temp /\ r.pres = 64 * x.pres /\ r.hum = 64 * x.hum /\ r.ok = x.ok
WxOK(S, t, iv, interp, x, r) ==
  LET N == Near(S, t, iv) IN
  IF N = {} THEN x = "ObjectNotFound"
  ELSE /\ x = "ok"
       /\ IF Cardinality(N) = 1 THEN Is64(CHOOSE q \in N : TRUE, r)
          ELSE IF ~interp THEN Is64(Closer(N, t), r)
          ELSE LET b == Earliest(N)  a == Latest(N) IN
               /\ r.t = t /\ r.ok
               /\ Between(b, a, t, b.temp, a.temp, r.temp) /\ Between(b, a, t, b.pres, a.pres, r.pres) /\ Between(b, a, t, b.hum, a.hum, r.hum)
\* ---- ionosphere: [t, m]; a model that is in force already is not taken again ------------
IonoTakes(S, t, m, valid) == valid /\ (Before(S, t) = {} \/ Latest(Before(S, t)).m # m)
IonoAdd(S, t, m, valid) == IF IonoTakes(S, t, m, valid) THEN Put(S, [t |-> t, m |-> m]) ELSE S
IonoAt(S, t) == IF Before(S, t) = {} THEN 0 ELSE Latest(Before(S, t)).m
IonoEdit(S, a, b) == {x \in S : x.t >= a /\ x.t <= b}
\* ---- numbers of satellites: rows <<satellite, number, from, until>> --------------------
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Holds(r, t) == LE(r[3], t) /\ LE(t, r[4])
PrnOf(T, svn, t) == {r[2] : r \in {q \in T : q[1] = svn /\ Holds(q, t)}}
SvnOf(T, prn, t) == {r[1] : r \in {q \in T : q[2] = prn /\ Holds(q, t)}}
Clash(p, q) == (p[1] = q[1] \/ p[2] = q[2]) /\ LE(p[3], q[4]) /\ LE(q[3], p[4])
Consistent(T) == \A i, j \in 1..Len(T) : i < j => ~Clash(T[i], T[j])
BlockOf(svn) == {b[2] : b \in {q \in SetOf(Blocks) : q[1] = svn}}
\* ---- descriptions: lines are records, in the order of the file --------------------------
\* state: launches, norad numbers, clocks (each once per key) and satellites in order
Empty == [launch |-> <<>>, norad |-> <<>>, clock |-> <<>>, sat |-> <<>>]
HasKey(s, k) == \E i \in 1..Len(s) : s[i][1] = k
Get(s, k) == LET i == CHOOSE j \in 1..Len(s) : s[j][1] = k IN s[i][2]
\* a line is in order in itself; what else it needs is in the lines before it
Fits(st, ln) ==
  /\ ln.good
  /\ CASE ln.k = "LAUNCH" -> ~HasKey(st.launch, <<ln.sys, ln.svn>>)
       [] ln.k = "NORAD" -> ~HasKey(st.norad, <<ln.sys, ln.svn>>)
       [] ln.k = "CLOCK" -> ~HasKey(st.clock, <<ln.sys, ln.type>>)
       [] ln.k = "SAT" -> /\ HasKey(st.norad, <<ln.sys, ln.svn>>) /\ HasKey(st.launch, <<ln.sys, ln.svn>>)
                          /\ HasKey(st.clock, <<ln.sys, Get(st.launch, <<ln.sys, ln.svn>>).type>>)
       [] OTHER -> TRUE
TakeLine(st, ln) ==
  IF ~Fits(st, ln) THEN st
  ELSE CASE ln.k = "LAUNCH" -> [st EXCEPT !.launch = Append(@, <<<<ln.sys, ln.svn>>, [t |-> ln.t, type |-> ln.type, mission |-> ln.mission]>>)]
         [] ln.k = "NORAD" -> [st EXCEPT !.norad = Append(@, <<<<ln.sys, ln.svn>>, ln.num>>)]
         [] ln.k = "CLOCK" -> [st EXCEPT !.clock = Append(@, <<<<ln.sys, ln.type>>, ln.clocks>>)]
         [] ln.k = "SAT" -> LET la == Get(st.launch, <<ln.sys, ln.svn>>) IN
                            [st EXCEPT !.sat = Append(@, [s |-> ln, launch |-> la, num |-> Get(st.norad, <<ln.sys, ln.svn>>), clocks |-> Get(st.clock, <<ln.sys, la.type>>)])]
         [] OTHER -> st
RECURSIVE Load(_, _, _)
Load(st, lines, i) == IF i > Len(lines) THEN st ELSE Load(TakeLine(st, lines[i]), lines, i + 1)
RECURSIVE AllFit(_, _, _)
AllFit(st, lines, i) == IF i > Len(lines) THEN TRUE ELSE Fits(st, lines[i]) /\ AllFit(TakeLine(st, lines[i]), lines, i + 1)
During(x, t) == x.s.from <= t /\ t < x.s.until
FullRec(x) == <<x.s.sys, x.s.svn, x.s.prn, x.s.chl, x.s.slotid, x.s.from, x.s.until, x.s.plane, x.s.slot, x.s.signals, x.s.status, x.s.active,
             x.launch.t, x.launch.type, x.launch.mission, x.num, x.clocks>>
ByPrn(st, sys, prn, t) == {FullRec(x) : x \in {y \in SetOf(st.sat) : y.s.sys = sys /\ y.s.prn = prn /\ During(y, t)}}
BySvn(st, sys, svn, t) == {FullRec(x) : x \in {y \in SetOf(st.sat) : y.s.sys = sys /\ y.s.svn = svn /\ During(y, t)}}
BySlot(st, slot, chl, t) == {FullRec(x) : x \in {y \in SetOf(st.sat) : y.s.sys = "GLONASS" /\ y.s.slotid = slot /\ y.s.chl = chl /\ During(y, t)}}
=============================================================================
