------------------------------ MODULE Sp3Load ------------------------------
(* Loading SP3 and RINEX clock files into tables of positions and clocks.      *)
(* A file is a sequence of lines; a satellite's record at an epoch is made of  *)
(* its P line and the EP, V, EV lines that follow it.                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_, _)
Pow(b, n) == IF n <= 0 THEN 1 ELSE b * Pow(b, n - 1)
Zero3 == <<0, 0, 0>>
NoRec == [has |-> FALSE]
\* the sigma of a coded exponent; a file of the older formats has none
Sig(f, b, g) == IF f.ver \in {"c", "d"} /\ g >= 0 THEN Pow(b, g) ELSE 0
Sig3(f, g) == [ i \in 1..3 |-> Sig(f, f.bpv, g[i]) ]
FromP(f, t, ln) ==
  [has |-> TRUE, s |-> ln.s, t |-> t, p |-> ln.x, sp |-> Sig3(f, ln.g), v |-> Zero3, sv |-> Zero3,
   b |-> ln.c, sb |-> Sig(f, f.bclk, ln.g[4]), d |-> 0, sd |-> 0, op |-> ln.op, cp |-> ln.cp]
\* the reading machine: epoch, record being assembled, tables of positions and clocks
Key(r) == <<r.s, r.t>>
Upd(T, k, x) == [ q \in DOMAIN T \cup {k} |-> IF q = k THEN x ELSE T[q] ]
PosOf(r) == [p |-> r.p, sp |-> r.sp, v |-> r.v, sv |-> r.sv]
ClkOf(r) == [b |-> r.b, sb |-> r.sb, d |-> r.d, sd |-> r.sd]
Absv(x) == IF x < 0 THEN -x ELSE x
BadPos(r) == \E i \in 1..3 : r.p[i] = 0
BadClk(r) == Absv(r.b) >= 999999000
\* o: options; fill: clocks are taken from this file
Dropped(o, fill, r) == (o.badp /\ BadPos(r)) \/ (fill /\ o.badc /\ BadClk(r))
Flush(o, fill, m) ==
  LET r == m.cur IN
  IF ~r.has \/ Dropped(o, fill, r) THEN [m EXCEPT !.cur = NoRec]
  ELSE [m EXCEPT !.cur = NoRec,
                 !.pos = IF o.predp /\ r.op THEN m.pos ELSE Upd(m.pos, Key(r), PosOf(r)),
                 !.clk = IF ~fill \/ (o.predc /\ r.cp) THEN m.clk ELSE Upd(m.clk, Key(r), ClkOf(r))]
Line1(f, o, fill, m, ln) ==
  CASE ln.k = "*" -> [Flush(o, fill, m) EXCEPT !.t = ln.t]
    [] ln.k = "P" -> [Flush(o, fill, m) EXCEPT !.cur = FromP(f, m.t, ln)]
    [] ln.k = "EP" -> [m EXCEPT !.cur.sp = <<ln.d[1], ln.d[2], ln.d[3]>>, !.cur.sb = ln.d[4]]
    [] ln.k = "V" -> [m EXCEPT !.cur.v = ln.x, !.cur.sv = Sig3(f, ln.g), !.cur.d = ln.c, !.cur.sd = Sig(f, f.bclk, ln.g[4])]
    [] ln.k = "EV" -> [m EXCEPT !.cur.sv = <<ln.d[1], ln.d[2], ln.d[3]>>, !.cur.sd = ln.d[4]]
RECURSIVE Read(_, _, _, _, _)
Read(f, o, fill, m, i) ==
  IF i > Len(f.lines) THEN Flush(o, fill, m) ELSE Read(f, o, fill, Line1(f, o, fill, m, f.lines[i]), i + 1)
Load(f, o, fill, pos, clk) ==
  LET m == Read(f, o, fill, [t |-> 0, cur |-> NoRec, pos |-> pos, clk |-> clk], 1) IN <<m.pos, m.clk>>
\* RINEX clocks: every AS line is a record
RECURSIVE LoadClk(_, _, _)
LoadClk(f, clk, i) ==
  IF i > Len(f.lines) THEN clk
  ELSE LET ln == f.lines[i] IN
       LoadClk(f, IF ln.k = "AS" THEN Upd(clk, <<ln.s, ln.t>>, [b |-> ln.b, sb |-> ln.sb, d |-> ln.d, sd |-> ln.sd]) ELSE clk, i + 1)
Sats(T) == { k[1] : k \in DOMAIN T }
Times(T, s) == { k[2] : k \in { q \in DOMAIN T : q[1] = s } }
=============================================================================
