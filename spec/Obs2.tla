-------------------------------- MODULE Obs2 --------------------------------
(* RINEX 2 observation files (versions 2.0, 2.1, 2.11): the header records and *)
(* their continuation lines, the data records, and what reading gives back.    *)
(*   a header: list of <<class, key, value>> in the order of the format        *)
(*   a data record: flag nsv clk t, then one "d" per satellite and type of     *)
(*   the header, or the auxiliary header records of an event                   *)
EXTENDS RecText
\* ---- lines of a list: at most n entries each, at least one line -----------------
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
NLines(k, n) == IF k = 0 THEN 1 ELSE ((k + n - 1) \div n)
\* ---- the century of a two-digit year: the one nearest to the first observation ---
FullYear(yy, first) ==
  LET y == ((first \div 100) * 100) + yy
  IN IF y - first > 50 THEN y - 100 ELSE IF first - y >= 50 THEN y + 100 ELSE y
\* ---- header -----------------------------------------------------------------------
SysName(c) == CASE c = "G" -> "GPS" [] c = "R" -> "GLONASS" [] c = "E" -> "Galileo" [] c = "S" -> "Geosync" [] c = "M" -> "Mixed"
                [] c = "C" -> "BeiDou" [] c = "J" -> "QZSS" [] c = "T" -> "Transit" [] c = "I" -> "IRNSS"
TSName(c) == CASE c = "R" -> "GLO" [] c = "E" -> "GAL" [] c = "G" -> "GPS" [] OTHER -> "   "
Dec2(c) == CASE c \in {"apos", "ahen"} -> 4 [] c = "intv" -> 3 [] c = "clk" -> 9
            [] c \in {"pgm", "runby", "obsr", "recno", "rectype", "recvers", "antno", "anttype", "mnum"} -> -20
            [] c \in {"mname", "comment"} -> -60 [] c = "agcy" -> -40 [] OTHER -> 99
Secs(f) == f[1] \in {"first", "last", "t"} /\ f[2] = "s"
Keep2(f) ==
  LET d == IF Secs(f) THEN 7 ELSE Dec2(f[1])  v == f[3]
  IN IF f[1] \in {"first", "last"} /\ f[2] = "sys" THEN (IF v \in {"R", "E"} THEN v ELSE "G")
     ELSE IF f[1] = "d" THEN (IF v[1] THEN <<KeepD(v[2], 3), v[3], v[4]>> ELSE <<<<1, 0, 0, 0>>, 0, 0>>)
     ELSE IF d = 99 THEN v ELSE IF d < 0 THEN KeepS(v, -d) ELSE KeepD(v, d)
\* satellites with their own wavelength factors come back in groups of a line
RECURSIVE Regroup(_)
Regroup(h) ==
  IF h = <<>> THEN <<>>
  ELSE (IF h[1][1] = "xwf" THEN LET g == Chunks(h[1][3][3], 7) IN
             IF h[1][3][3] = <<>> THEN <<>> ELSE [ i \in DOMAIN g |-> <<"xwf", "", <<h[1][3][1], h[1][3][2], g[i]>>>> ]
        ELSE <<h[1]>>) \o Regroup(Tail(h))
Same2(a, b) ==
  LET x == Regroup(a)  y == Regroup(b) IN
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x : x[i][1] = y[i][1] /\ x[i][2] = y[i][2] /\ Keep2(x[i]) = Keep2(y[i])
Line(body, label) == LJ(body, 60) \o label
S(h, c, w) == LJ(Val(h, c), w)
T3(h, c) == Fix(ValK(h, c, "0"), 14, 4) \o Fix(ValK(h, c, "1"), 14, 4) \o Fix(ValK(h, c, "2"), 14, 4)
Tm(h, c) == LET q(k) == IFix(ValK(h, c, k), 6) IN
  LJ(q("Y") \o q("M") \o q("D") \o q("h") \o q("m") \o Fix(ValK(h, c, "s"), 13, 7), 48) \o TSName(ValK(h, c, "sys"))
One(h, c, body, label) == IF Has(h, c) THEN <<Line(body, label)>> ELSE <<>>
XwfLines(h) ==
  LET x == SelectSeq(Regroup(h), LAMBDA f : f[1] = "xwf")
  IN [ i \in DOMAIN x |-> Line(IFix(x[i][3][1], 6) \o IFix(x[i][3][2], 6) \o IFix(Len(x[i][3][3]), 6)
                               \o Cat([ j \in DOMAIN x[i][3][3] |-> Sp(3) \o x[i][3][3][j] ]), "WAVELENGTH FACT L1/2") ]
ObstLines(h) ==
  LET t == All(h, "obst")  g == Chunks(t, 9)
  IN IF t = <<>> THEN <<>>
     ELSE [ i \in DOMAIN g |-> Line((IF i = 1 THEN IFix(Len(t), 6) ELSE Sp(6)) \o Cat([ j \in DOMAIN g[i] |-> RJ(g[i][j][3], 6) ]), "# / TYPES OF OBSERV") ]
PrnLinesOf(f) == LET g == Chunks(f[3], 9)
  IN [ i \in DOMAIN g |-> Line((IF i = 1 THEN Sp(3) \o f[2] ELSE Sp(6)) \o Cat([ j \in DOMAIN g[i] |-> IFix(g[i][j], 6) ]), "PRN / # OF OBS") ]
PrnLines(h) == LET p == All(h, "prnobs") IN Flat([ i \in DOMAIN p |-> PrnLinesOf(p[i]) ])
VerText(h) == LET v == Val(h, "ver") IN ToString(v \div 100) \o "." \o ZJ(ToString(v % 100), 2)
HeadLines(h) ==
     (IF Has(h, "ver") THEN <<RJ(VerText(h), 9) \o Sp(11) \o LJ("Observation", 20)
                              \o LJ(Val(h, "fsys") \o " (" \o SysName(Val(h, "fsys")) \o ")", 20) \o "RINEX VERSION / TYPE">> ELSE <<>>)
  \o (IF Has(h, "pgm") THEN <<S(h, "pgm", 20) \o S(h, "runby", 20)>> ELSE <<>>)
  \o (IF Has(h, "mname") THEN <<Line(Val(h, "mname"), "MARKER NAME")>> ELSE <<>>)
  \o (IF Has(h, "obsr") THEN <<Line(S(h, "obsr", 20) \o S(h, "agcy", 40), "OBSERVER / AGENCY")>> ELSE <<>>)
  \o (IF Has(h, "recno") THEN <<Line(S(h, "recno", 20) \o S(h, "rectype", 20) \o S(h, "recvers", 20), "REC # / TYPE / VERS")>> ELSE <<>>)
  \o (IF Has(h, "antno") THEN <<Line(S(h, "antno", 20) \o S(h, "anttype", 20), "ANT # / TYPE")>> ELSE <<>>)
  \o (IF Has(h, "apos") THEN <<Line(T3(h, "apos"), "APPROX POSITION XYZ")>> ELSE <<>>)
  \o (IF Has(h, "ahen") THEN <<Line(T3(h, "ahen"), "ANTENNA: DELTA H/E/N")>> ELSE <<>>)
  \o (IF Has(h, "wf") THEN <<Line(IFix(ValK(h, "wf", "0"), 6) \o IFix(ValK(h, "wf", "1"), 6), "WAVELENGTH FACT L1/2")>> ELSE <<>>)
  \o XwfLines(h) \o ObstLines(h)
  \o (IF Has(h, "intv") THEN <<Line(Fix(Val(h, "intv"), 10, 3), "INTERVAL")>> ELSE <<>>)
  \o (IF Has(h, "first") THEN <<Line(Tm(h, "first"), "TIME OF FIRST OBS")>> ELSE <<>>)
  \o (IF Has(h, "last") THEN <<Line(Tm(h, "last"), "TIME OF LAST OBS")>> ELSE <<>>)
  \o (IF Has(h, "mnum") THEN <<Line(S(h, "mnum", 20), "MARKER NUMBER")>> ELSE <<>>)
  \o (IF Has(h, "rco") THEN <<Line(IFix(Val(h, "rco"), 6), "RCV CLOCK OFFS APPL")>> ELSE <<>>)
  \o (IF Has(h, "leap") THEN <<Line(IFix(Val(h, "leap"), 6), "LEAP SECONDS")>> ELSE <<>>)
  \o (LET c == All(h, "comment") IN [ i \in DOMAIN c |-> Line(c[i][3], "COMMENT") ])
  \o (IF Has(h, "nsat") THEN <<Line(IFix(Val(h, "nsat"), 6), "# OF SATELLITES")>> ELSE <<>>)
  \o PrnLines(h)
  \o (IF Has(h, "end") THEN <<Line("", "END OF HEADER")>> ELSE <<>>)
\* the line with the date of the run is compared without the date
RunBy(line) == Len(line) = 79 /\ SubSeq(line, 61, 79) = "PGM / RUN BY / DATE"
NoDate(line) == IF RunBy(line) THEN SubSeq(line, 1, 40) ELSE line
TextOK(expect, lines) == /\ Len(expect) = Len(lines) /\ \A i \in DOMAIN lines : expect[i] = NoDate(lines[i])
Req2(v) == {"ver", "pgm", "mname", "obsr", "recno", "antno", "apos", "ahen", "obst", "first", "end"} \cup (IF v < 211 THEN {"wf"} ELSE {})
CanWrite(h) == Has(h, "ver") /\ Val(h, "ver") \in {200, 210, 211} /\ \A c \in Req2(Val(h, "ver")) : Has(h, c)
               \* the allowances recorded: version 2.0 and 2.1 need the wavelength factors
\* ---- data records ----------------------------------------------------------------
Event(r) == Val(r, "flag") \in 2..5
NoTime(r) == ~Has(r, "t")
Aux(r) == SelectSeq(r, LAMBDA f : ~(f[1] \in {"flag", "nsv", "clk", "t"}))
Written(r) == IF Event(r) THEN HeadLines(Aux(r)) # <<>> ELSE Val(r, "nsv") > 0 /\ Has(r, "d")
\* an event without a time is passed over by the reader
Readable(r) == Written(r) /\ ~NoTime(r)
Zero(x) == x[2] = 0 /\ x[3] = 0 /\ x[4] = 0
Digit(n) == IF n = 0 THEN " " ELSE ToString(n)
TimeText2(r) == IF NoTime(r) THEN Sp(26)
  ELSE LET q(k) == ValK(r, "t", k) IN
       " " \o IFixZ(q("Y") % 100, 2) \o " " \o IFix(q("M"), 2) \o " " \o IFix(q("D"), 2) \o " " \o IFix(q("h"), 2) \o " " \o IFix(q("m"), 2) \o Fix(q("s"), 11, 7)
\* the satellites in order; the data entries of one satellite follow each other
Sats(r, nt) == LET d == All(r, "d") IN [ i \in 1..(Len(d) \div nt) |-> SubSeq(d[((i - 1) * nt) + 1][2], 1, 3) ]
EpochLines(r, nt) ==
  LET base == TimeText2(r) \o Sp(2) \o IFix(Val(r, "flag"), 1) \o IFix(Val(r, "nsv"), 3)
      sats == IF Event(r) THEN <<>> ELSE Sats(r, nt)
      g == Chunks(sats, 12)
      l1 == base \o Cat(g[1])
      clk == Val(r, "clk")
  IN [ i \in DOMAIN g |-> IF i = 1 THEN (IF Event(r) \/ Zero(clk) THEN l1 ELSE LJ(l1, 68) \o Fix(clk, 12, 9)) ELSE Sp(32) \o Cat(g[i]) ]
DatumText(v) == IF v[1] THEN Fix(v[2], 14, 3) \o Digit(v[3]) \o Digit(v[4]) ELSE Sp(9) \o "0.000  "
DataLines(r, nt) ==
  LET d == All(r, "d") IN
  Flat([ i \in 1..(Len(d) \div nt) |->
         LET g == Chunks(SubSeq(d, ((i - 1) * nt) + 1, i * nt), 5)
         IN [ k \in DOMAIN g |-> Cat([ j \in DOMAIN g[k] |-> DatumText(g[k][j][3]) ]) ] ])
RecordLines(r, nt) ==
  IF ~Written(r) THEN <<>>
  ELSE EpochLines(r, nt) \o (IF Event(r) THEN HeadLines(Aux(r)) ELSE DataLines(r, nt))
RecordOK(r, nt, lines) ==
  LET x == RecordLines(r, nt) IN Len(x) = Len(lines) /\ \A i \in DOMAIN x : RTrim(x[i]) = RTrim(NoDate(lines[i]))
\* what reading gives: the year in the century of the header, no clock offset from an event
YearOf(f, first) == IF f[1] = "t" /\ f[2] = "Y" THEN <<"t", "Y", FullYear(f[3] % 100, first)>> ELSE f
ReadBack(r, first) ==
  [ i \in DOMAIN r |-> IF r[i][1] = "clk" /\ Event(r) THEN <<"clk", "", <<1, 0, 0, 0>>>> ELSE YearOf(r[i], first) ]
\* ---- the same file through the RINEX 3 classes --------------------------------------
\* the RINEX 3 code of a type for a satellite system; "" when the system has none
P2In(ts) == \E i \in DOMAIN ts : ts[i] = "P2"
Code3(y, t, ts) ==
  LET k == Ch(t, 1)  b == Ch(t, 2)  obs == k \in {"C", "L", "D", "S"} IN
  CASE y = "G" -> (CASE t = "C1" -> "C1C" [] t = "P1" -> "C1W" [] t = "C2" -> "C2X" [] t = "P2" -> "C2W"
                     [] b = "1" /\ k \in {"L", "D", "S"} -> t \o "C"
                     [] b = "2" /\ k \in {"L", "D", "S"} -> t \o (IF P2In(ts) THEN "W" ELSE "X")
                     [] b = "5" /\ obs -> t \o "X" [] OTHER -> "")
    [] y = "R" -> (CASE t = "P1" -> "C1P" [] t = "P2" -> "C2P" [] b \in {"1", "2"} /\ obs -> t \o "C" [] OTHER -> "")
    [] y = "E" -> (CASE b = "1" /\ obs -> t \o "B" [] b = "5" /\ obs -> t \o "I" [] b \in {"6", "7", "8"} /\ obs -> t \o "X" [] OTHER -> "")
    [] y = "S" -> (CASE b = "1" /\ obs -> t \o "C" [] b = "5" /\ obs -> t \o "X" [] OTHER -> "")
    [] OTHER -> ""
Types(h) == LET o == All(h, "obst") IN [ i \in DOMAIN o |-> o[i][3] ]
TypesOf(y, ts) == SelectSeq(ts, LAMBDA t : Code3(y, t, ts) # "")
\* the systems of a file: those of the satellites listed, else that of the file
Systems(h) ==
  LET p == All(h, "prnobs")  y == Val(h, "fsys")
      have == { Ch(p[i][2], 1) : i \in DOMAIN p }
      in == IF p # <<>> THEN have ELSE IF y = "M" THEN {"G", "R", "S", "E"} ELSE {y}
  IN SelectSeq(<<"E", "G", "R", "S">>, LAMBDA c : c \in in)
OfSys(h, y) == \E i \in DOMAIN Systems(h) : Systems(h)[i] = y
Kept(h, y) == IF OfSys(h, y) THEN TypesOf(y, Types(h)) ELSE <<>>
IsIn(t, s) == \E i \in DOMAIN s : s[i] = t
At(s, t) == CHOOSE i \in DOMAIN s : s[i] = t
\* a list with one entry per type of the file, for the types the system has
Pick(h, y, lst) == LET ts == Types(h)  k == Kept(h, y) IN [ i \in DOMAIN k |-> lst[At(ts, k[i])] ]
Head3(h) == [ i \in DOMAIN h |-> IF h[i][1] = "prnobs" THEN <<"prnobs", h[i][2], Pick(h, Ch(h[i][2], 1), h[i][3])>> ELSE h[i] ]
\* codes by system
Codes3(h) == LET y == Systems(h) IN [ i \in DOMAIN y |-> <<y[i], [ j \in DOMAIN Kept(h, y[i]) |-> Code3(y[i], Kept(h, y[i])[j], Types(h)) ]>> ]
DVal(v) == IF v[1] THEN <<KeepD(v[2], 3), v[3], v[4]>> ELSE <<<<1, 0, 0, 0>>, 0, 0>>
SatData(h, r) ==
  LET nt == Len(Types(h))  d == All(r, "d") IN
  [ i \in 1..(Len(d) \div nt) |->
      LET s == SubSeq(d[((i - 1) * nt) + 1][2], 1, 3)
          all == [ j \in 1..nt |-> DVal(d[((i - 1) * nt) + j][3]) ]
      IN <<s, Pick(h, Ch(s, 1), all)>> ]
Same3(h, a, r, sd) ==
  /\ Same2(a, SelectSeq(r, LAMBDA f : f[1] # "d"))
  /\ LET x == SatData(h, r) IN
     Len(x) = Len(sd) /\ \A i \in DOMAIN x : x[i][1] = sd[i][1] /\ x[i][2] = [ j \in DOMAIN sd[i][2] |-> <<KeepD(sd[i][2][j][1], 3), sd[i][2][j][2], sd[i][2][j][3]>> ]
\* ... and written again as version 2: the types of all systems, system by system
\* kn: with the names P1, P6, P7 and P8 that prepareVer2Write gives to pseudoranges
\* of Galileo, which have none but C1, C6, C7 and C8 in RINEX 2 (known finding)
Name2(kn, y, t) == IF kn /\ y = "E" /\ IsIn(t, <<"C1", "C6", "C7", "C8">>) THEN "P" \o Ch(t, 2) ELSE t
\* ... of which RINEX 2 readers know P1 only
Reads(t) == IF IsIn(t, <<"P6", "P7", "P8">>) THEN "UN" ELSE t
Lost(f) == f[1] = "d" /\ SubSeq(f[2], 4, 5) = "UN"
Named(kn, h, y) == LET k == Kept(h, y) IN [ i \in DOMAIN k |-> Name2(kn, y, k[i]) ]
RECURSIVE Union(_, _)
Union(a, b) == IF b = <<>> THEN a ELSE Union(IF IsIn(b[1], a) THEN a ELSE Append(a, b[1]), Tail(b))
RECURSIVE UnionAll(_, _, _, _)
UnionAll(kn, h, ys, acc) == IF ys = <<>> THEN acc ELSE UnionAll(kn, h, Tail(ys), Union(acc, Named(kn, h, ys[1])))
Types2(kn, h) == UnionAll(kn, h, Systems(h), <<>>)
Repick(kn, h, y, lst, zero) ==
  LET t2 == Types2(kn, h)  k == Kept(h, y)  n == Named(kn, h, y)
  IN [ i \in DOMAIN t2 |-> IF IsIn(t2[i], n) THEN lst[At(Types(h), k[At(n, t2[i])])] ELSE zero ]
Again(kn, h) ==    \* the header, types apart
  LET x == SelectSeq(h, LAMBDA f : ~(f[1] \in {"obst", "wf", "xwf"}))
  IN [ i \in DOMAIN x |-> IF x[i][1] = "prnobs" THEN <<"prnobs", x[i][2], Repick(kn, h, Ch(x[i][2], 1), x[i][3], 0)>> ELSE x[i] ]
AgainOK(kn, h, g) ==
  /\ Types(g) = [ i \in DOMAIN Types2(kn, h) |-> Reads(Types2(kn, h)[i]) ]
  /\ Same2(SelectSeq(g, LAMBDA f : ~(f[1] \in {"obst", "wf", "xwf"})), Again(kn, h))
  /\ Has(h, "wf") => Same2(SelectSeq(g, LAMBDA f : f[1] \in {"wf", "xwf"}), SelectSeq(h, LAMBDA f : f[1] \in {"wf", "xwf"}))
AgainData(kn, h, r) ==
  LET nt == Len(Types(h))  d == All(r, "d")  t2 == Types2(kn, h) IN
  Flat([ i \in 1..(Len(d) \div nt) |->
      LET s == SubSeq(d[((i - 1) * nt) + 1][2], 1, 3)
          all == [ j \in 1..nt |-> d[((i - 1) * nt) + j][3] ]
          q == Repick(kn, h, Ch(s, 1), all, <<FALSE, <<1, 0, 0, 0>>, 0, 0>>)
      IN SelectSeq([ j \in DOMAIN t2 |-> <<"d", s \o Reads(t2[j]), q[j]>> ], LAMBDA f : ~Lost(f)) ])
AgainRec(kn, h, r) == SelectSeq(r, LAMBDA f : f[1] # "d") \o AgainData(kn, h, r)
=============================================================================
