--------------------------- MODULE TabStoreTrace ---------------------------
EXTENDS TabStore, TraceBase
VARIABLES tabs, cfg      \* cfg: kind, n, linear, hv, ha (velocity / acceleration present), gap, max
v == <<tabs, cfg>>
TInit == l = 1 /\ tabs = <<>> /\ cfg = [kind |-> "", n |-> 1, lin |-> FALSE, hv |-> FALSE, ha |-> FALSE, gap |-> -1, max |-> -1]
Sats == DOMAIN tabs
Tab(s) == IF s \in Sats THEN tabs[s] ELSE <<>>
With(s, tb) == [ q \in Sats \cup {s} |-> IF q = s THEN tb ELSE tabs[q] ]
Abs(x) == IF x < 0 THEN -x ELSE x
TsOK == cfg.kind = "any" \/ Ev.own
AddOK ==
  IF ~Ev.own THEN Ev.x = "InvalidRequest" /\ UNCHANGED v
  ELSE LET o == Rec(Tab(Ev.s), Ev.t)  m == Ev.m
           hv == cfg.hv \/ m = "v" \/ (m = "rec" /\ Ev.v # 0)
           ha == cfg.ha \/ m = "a" \/ (m = "rec" /\ Ev.a # 0)
           r == [t |-> Ev.t, p |-> IF m \in {"rec", "p"} THEN Ev.p ELSE o.p,
                 v |-> IF m \in {"rec", "v"} THEN Ev.v ELSE o.v, a |-> IF m \in {"rec", "a"} THEN Ev.a ELSE o.a]
       IN Ev.x = "ok" /\ tabs' = With(Ev.s, Put(Tab(Ev.s), r)) /\ cfg' = [cfg EXCEPT !.hv = hv, !.ha = ha]
\* windows: first and last time of the answer
WinOK ==
  LET tb == Tab(Ev.s)  ex == Has(tb, Ev.t)
      w == IF Ev.c THEN Centered(tb, Ev.t, Ev.n, cfg.gap, cfg.max) ELSE Off(tb, Ev.t, Ev.n, cfg.gap, cfg.max)
  IN IF Ev.s \notin Sats \/ ~Ev.own \/ (Ev.c /\ Len(tb) < 2) THEN Ev.x = "InvalidRequest"
     ELSE IF ex /\ Ev.exact THEN Ev.x = "ok" /\ Ev.m /\ Ev.w[1] = Ev.t
     ELSE IF w = None THEN Ev.x = "InvalidRequest"
     ELSE Ev.x = "ok" /\ Ev.m = ex /\ Ev.w = <<tb[w[1]].t, tb[w[2]].t>>
\* values: logged times 1000 (rates obtained from positions: as they are)
Num(x, unit) == Abs(x - unit) <= 3
OnLine(tb, w, f, x) == Line(tb, w, f) => Abs(x * Step(tb, w) - 1000 * Value(tb, w, f, Ev.t)) <= 5 * Step(tb, w)
OnSlope(tb, w, f, x, k) == Line(tb, w, f) => Abs(x * Step(tb, w) - k * Slope(tb, w, f)) <= 5 * Step(tb, w)
PosK == IF cfg.kind = "clk" THEN 1000 ELSE 10000
AccK == IF cfg.kind = "clk" THEN 1000 ELSE 100
HasNode(tb) == Has(tb, Ev.t)
Node(tb) == tb[At(tb, Ev.t)]
PVal(tb, w) == OnLine(tb, w, "p", Ev.p) /\ (HasNode(tb) => Num(Ev.p, 1000 * Node(tb).p))
VVal(tb, w) == IF cfg.hv THEN OnLine(tb, w, "v", Ev.v) /\ (HasNode(tb) => Num(Ev.v, 1000 * Node(tb).v)) ELSE OnSlope(tb, w, "p", Ev.v, PosK)
AVal(tb, w) == IF cfg.ha THEN (cfg.kind = "clk" \/ cfg.hv \/ Ev.q = "a") => OnLine(tb, w, "a", Ev.a)
               ELSE IF cfg.hv THEN OnSlope(tb, w, "v", Ev.a, AccK) ELSE Ev.a = 0
ValOK ==
  LET tb == Tab(Ev.s)  q == Ev.q
      w == Centered(tb, Ev.t, cfg.n, cfg.gap, cfg.max)
      ret == Has(tb, Ev.t) /\ (IF q \in {"value", "v"} THEN cfg.hv ELSE IF q = "p" THEN TRUE ELSE cfg.ha)
  IN IF Ev.s \notin Sats \/ ~Ev.own \/ Len(tb) < 2 \/ (q = "a" /\ ~cfg.hv /\ ~cfg.ha) THEN Ev.x = "InvalidRequest"
     ELSE IF ret THEN /\ Ev.x = "ok"
                      /\ q \in {"value", "p"} => Num(Ev.p, 1000 * Node(tb).p)
                      /\ q \in {"value", "v"} => Num(Ev.v, 1000 * Node(tb).v)
                      /\ q \in {"value", "a"} => Num(Ev.a, 1000 * Node(tb).a)
     ELSE IF w = None THEN Ev.x = "InvalidRequest"
     ELSE /\ Ev.x = "ok"
          /\ q \in {"value", "p"} => PVal(tb, w)
          /\ q \in {"value", "v"} => VVal(tb, w)
          /\ q \in {"value", "a"} => AVal(tb, w)
Full == { s \in Sats : tabs[s] # <<>> }
Lo(S) == CHOOSE a \in S : \A b \in S : a <= b
Hi(S) == CHOOSE a \in S : \A b \in S : a >= b
BIG == 2147483646
Lim(S) == IF S = {} THEN <<BIG, -BIG>>
          ELSE <<Lo({ tabs[s][1].t : s \in S }), Hi({ tabs[s][Len(tabs[s])].t : s \in S })>>
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN Len(tabs[s]) + Sum(S \ {s})
StateOK ==
  /\ Ev.n = Sum(Sats) /\ Ev.nsats = Cardinality(Sats)
  /\ Len(Ev.sats) = Cardinality(Full) /\ \A i \in DOMAIN Ev.sats : Ev.sats[i] \in Full /\ (i > 1 => Ev.sats[i-1] < Ev.sats[i])
  /\ Ev.all = Lim(Full)
  /\ Ev.hv = cfg.hv /\ Ev.ha = cfg.ha
  /\ Ev.odd = Sum({ s \in Sats : s > 100 })
SatOK == LET tb == Tab(Ev.s)  d == Steps(tb) IN
  /\ Ev.n = Len(tb) /\ Ev.has = (Ev.s \in Sats) /\ Ev.lim = Lim(IF tb = <<>> THEN {} ELSE {Ev.s})
  /\ IF Len(tb) < 2 THEN Ev.dt = 0 ELSE IF Cardinality(d) <= 3 THEN Ev.dt \in Nominal(tb) ELSE TRUE
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ tabs' = <<>> /\ cfg' = [kind |-> Ev.kind, n |-> Ev.n, lin |-> Ev.lin, hv |-> FALSE, ha |-> FALSE, gap |-> -1, max |-> -1]
     \/ Is("order") /\ cfg' = [cfg EXCEPT !.n = Ev.n, !.lin = Ev.lin] /\ UNCHANGED tabs
     \/ Is("add") /\ AddOK
     \/ Is("win") /\ WinOK /\ UNCHANGED v
     \/ Is("val") /\ ValOK /\ UNCHANGED v
     \/ Is("state") /\ StateOK /\ UNCHANGED v
     \/ Is("sat") /\ SatOK /\ UNCHANGED v
     \/ Is("gap") /\ cfg' = [cfg EXCEPT !.gap = Ev.g] /\ UNCHANGED tabs
     \/ Is("max") /\ cfg' = [cfg EXCEPT !.max = Ev.m] /\ UNCHANGED tabs
     \/ Is("edit") /\ tabs' = [ s \in Sats |-> Keep(tabs[s], Ev.lo, Ev.hi) ] /\ UNCHANGED cfg
     \/ Is("clear") /\ tabs' = <<>> /\ UNCHANGED cfg
TSpec == TInit /\ [][TNext]_<<v, l>>
Ordered == \A s \in Sats : \A i \in 1..(Len(Tab(s))-1) : Tab(s)[i].t < Tab(s)[i+1].t
=============================================================================
