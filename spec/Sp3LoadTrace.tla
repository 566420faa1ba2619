---------------------------- MODULE Sp3LoadTrace ----------------------------
EXTENDS Sp3Load, TraceBase
VARIABLES pos, clk, st      \* st: options, time system, clock source, files
v == <<pos, clk, st>>
New == [o |-> [badp |-> TRUE, badc |-> TRUE, predp |-> FALSE, predc |-> FALSE], ts |-> "Any", sp3 |-> TRUE, nsp |-> 0, nck |-> 0]
TInit == l = 1 /\ pos = <<>> /\ clk = <<>> /\ st = New
\* a file is refused when its time system is not the store's
Clash(f) == f.ts # "Any" /\ st.ts # "Any" /\ f.ts # st.ts
FileOK == LET f == Ev IN
  IF f.kind = "missing" THEN Ev.x # "ok" /\ UNCHANGED v
  ELSE IF f.kind = "sp3" THEN
    IF Clash(f) \/ f.again THEN Ev.x = "InvalidRequest" /\ UNCHANGED v   \* a file is loaded once
    ELSE LET r == Load(f, st.o, st.sp3, pos, clk) IN
         Ev.x = "ok" /\ pos' = r[1] /\ clk' = r[2] /\ st' = [st EXCEPT !.ts = IF f.ts = "Any" THEN st.ts ELSE f.ts, !.nsp = @ + 1]
  ELSE LET was == IF st.sp3 THEN <<>> ELSE clk IN    \* changing the source of clocks empties them
    IF Clash(f) \/ f.again THEN Ev.x = "InvalidRequest" /\ clk' = was /\ st' = [st EXCEPT !.sp3 = FALSE] /\ UNCHANGED pos
    ELSE Ev.x = "ok" /\ clk' = LoadClk(f, was, 1) /\ st' = [st EXCEPT !.ts = f.ts, !.sp3 = FALSE, !.nck = @ + 1] /\ UNCHANGED pos
PosRows == { [s |-> k[1], t |-> k[2], r |-> pos[k]] : k \in DOMAIN pos }
ClkRows == { [s |-> k[1], t |-> k[2], r |-> clk[k]] : k \in DOMAIN clk }
Set(q) == { q[i] : i \in DOMAIN q }
DumpOK == /\ Len(Ev.pos) = Cardinality(DOMAIN pos) /\ Set(Ev.pos) = PosRows
          /\ Len(Ev.clk) = Cardinality(DOMAIN clk) /\ Set(Ev.clk) = ClkRows
Lo(S) == CHOOSE a \in S : \A b \in S : a <= b
Hi(S) == CHOOSE a \in S : \A b \in S : a >= b
TimesOf(T) == { k[2] : k \in DOMAIN T }
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Both == Sats(pos) \cap Sats(clk)
StateOK ==
  /\ Ev.np = Cardinality(DOMAIN pos) /\ Ev.nc = Cardinality(DOMAIN clk)
  /\ Set(Ev.sats) = Both /\ Set(Ev.psats) = Sats(pos) /\ Set(Ev.csats) = Sats(clk) /\ Set(Ev.idx) = Both
  /\ Ev.ts = st.ts
  /\ Ev.nf = <<st.nsp + (IF st.sp3 THEN 0 ELSE st.nck), st.nsp, IF st.sp3 THEN st.nsp ELSE st.nck>>
  /\ (DOMAIN pos # {} /\ (st.sp3 \/ DOMAIN clk # {})) =>
       Ev.lim = IF st.sp3 THEN <<Lo(TimesOf(pos)), Hi(TimesOf(pos))>>
                ELSE <<Max2(Lo(TimesOf(pos)), Lo(TimesOf(clk))), Min2(Hi(TimesOf(pos)), Hi(TimesOf(clk)))>>
SatLim == LET p == Times(pos, Ev.s)  c == Times(clk, Ev.s) IN
  (p # {} /\ (st.sp3 \/ c # {})) =>
     Ev.lim = IF st.sp3 THEN <<Lo(p), Hi(p)>> ELSE <<Max2(Lo(p), Lo(c)), Min2(Hi(p), Hi(c))>>
SatOK == Ev.has = (Ev.s \in Both) /\ Ev.np = Cardinality(Times(pos, Ev.s)) /\ Ev.nc = Cardinality(Times(clk, Ev.s)) /\ SatLim
\* positions and clocks in metres and seconds at the times of the tables
XvtOK == LET k == <<Ev.s, Ev.t>>  tp == Times(pos, Ev.s)  tc == Times(clk, Ev.s)
             in == Cardinality(tp) >= 2 /\ Cardinality(tc) >= 2 IN
  IF ~in \/ Ev.t < Lo(tp) \/ Ev.t > Hi(tp) \/ Ev.t < Lo(tc) \/ Ev.t > Hi(tc)
  THEN Ev.x = "InvalidRequest" /\ Ev.h = "Unavailable"
  ELSE IF ~(k \in DOMAIN pos /\ k \in DOMAIN clk /\ Ev.hv /\ Ev.hd) THEN TRUE
  ELSE Ev.x = "ok" /\ Ev.h = "Unused" /\ Ev.same /\ Ev.p = pos[k].p /\ Ev.v = pos[k].v /\ Ev.b = clk[k].b /\ Ev.d = clk[k].d
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ pos' = <<>> /\ clk' = <<>> /\ st' = New
     \/ Is("opt") /\ st' = [st EXCEPT !.o = [badp |-> Ev.badp, badc |-> Ev.badc, predp |-> Ev.predp, predc |-> Ev.predc]] /\ UNCHANGED <<pos, clk>>
     \/ Is("file") /\ FileOK
     \/ Is("dump") /\ DumpOK /\ UNCHANGED v
     \/ Is("state") /\ StateOK /\ UNCHANGED v
     \/ Is("sat") /\ SatOK /\ UNCHANGED v
     \/ Is("xvt") /\ XvtOK /\ UNCHANGED v
     \/ Is("src") /\ st' = [st EXCEPT !.sp3 = Ev.sp3] /\ clk' = (IF Ev.sp3 = st.sp3 THEN clk ELSE <<>>) /\ UNCHANGED pos
     \/ Is("clear") /\ pos' = <<>> /\ clk' = <<>> /\ UNCHANGED st
TSpec == TInit /\ [][TNext]_<<v, l>>
=============================================================================
