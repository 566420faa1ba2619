-------------------------------- MODULE Obs3 --------------------------------
(* RINEX 3 observation files: what the text keeps of each field, which header  *)
(* records a version has, and the text of simple records and of data records.  *)
EXTENDS RecText
\* decimals kept; 99: kept as it is; negative: string of that width
Dec3(c) ==
  CASE c \in {"apos", "ahen", "axyz", "aphc", "absi", "azaz", "azxyz", "com"} -> 4
    [] c = "intv" -> 3 [] c = "cpb" -> 3 [] c = "ps" -> 5 [] c = "data" -> 3 [] c = "clk" -> 12 [] c = "t" -> 7
    [] c \in {"type", "fsys", "pgm", "runby", "date", "mnum", "mtype", "obsr", "recno", "rectype", "recvers", "antno", "anttype", "ssu"} -> -20
    [] c \in {"comment", "mname"} -> -60
    [] c \in {"agcy", "dcbsrc", "pcvsrc"} -> -40
    [] c \in {"dcbname", "pcvname"} -> -17
    [] c \in {"apcode"} -> -3
    [] c \in {"apsys", "dcbsys", "pcvsys"} -> -1
    [] OTHER -> 99
Keep3(f) ==
  LET c == f[1]  v == f[3]
      d == IF c \in {"first", "last", "t"} /\ f[2] = "s" THEN 7 ELSE IF c = "t" THEN 99 ELSE Dec3(c)
  IN IF d = 99 THEN v ELSE IF d < 0 THEN KeepS(v, -d) ELSE KeepD(v, d)
Same3(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ Keep3(a[i]) = Keep3(b[i])
Ver(h) == Val(h, "ver")
\* header records not in the version are not written
InVer(c, v) == CASE c \in {"ps", "pssys", "slot"} -> v >= 301 [] c = "cpb" -> v >= 302 [] OTHER -> TRUE
\* the time system of the file: that of the first epoch, else the file's system
FileTS(h) ==
  LET t == ValK(h, "first", "ts")  y == Val(h, "fsys")  s == Ch(y, 1) IN
  IF t # "UNK" THEN t
  ELSE CASE s = "R" -> "UTC" [] s = "E" -> "GAL" [] s = "J" -> "QZS" [] s = "C" -> "BDT" [] OTHER -> "GPS"
\* what reading gives for a header written: the type fields unless the preserved
\* ones are kept, the time system resolved
Expect3(h) ==
  LET kept == SelectSeq(h, LAMBDA f : InVer(f[1], Ver(h)))
      ts == FileTS(h)
  IN [ i \in DOMAIN kept |-> IF kept[i][1] = "first" /\ kept[i][2] = "ts" THEN <<"first", "ts", ts>> ELSE kept[i] ]
\* required records
Req(v) == {"ver", "pgm", "mname", "obsr", "recno", "antno", "apos", "ahen", "obst", "first"} \cup (IF v >= 301 THEN {"pssys"} ELSE {})
CanWrite(h, reqPresent, hasR) ==
  /\ reqPresent
  /\ hasR => (Ver(h) >= 301 => Has(h, "slot")) /\ (Ver(h) >= 302 => Has(h, "cpb"))
\* ---- text -----------------------------------------------------------------------
Body(h, c) ==   \* columns 1..60 of the records with one line each
  LET S(x, w) == LJ(Val(h, x), w)
      T3(x, w1) == Fix(ValK(h, x, "0"), w1, 4) \o Fix(ValK(h, x, "1"), 14, 4) \o Fix(ValK(h, x, "2"), 14, 4)
      Tm(x) == IFix(ValK(h, x, "Y"), 6) \o IFix(ValK(h, x, "M"), 6) \o IFix(ValK(h, x, "D"), 6) \o IFix(ValK(h, x, "h"), 6) \o IFix(ValK(h, x, "m"), 6)
               \o Fix(ValK(h, x, "s"), 13, 7) \o Sp(5) \o ValK(h, x, "ts")
  IN CASE c = "pgm" -> S("pgm", 20) \o S("runby", 20) \o S("date", 20)
       [] c = "mname" -> S("mname", 60)
       [] c = "mnum" -> S("mnum", 20)
       [] c = "mtype" -> S("mtype", 20)
       [] c = "obsr" -> S("obsr", 20) \o S("agcy", 40)
       [] c = "recno" -> S("recno", 20) \o S("rectype", 20) \o S("recvers", 20)
       [] c = "antno" -> S("antno", 20) \o S("anttype", 20)
       [] c \in {"apos", "ahen", "axyz", "absi", "azxyz", "com"} -> T3(c, 14)
       [] c = "aphc" -> S("apsys", 1) \o " " \o RJ(Val(h, "apcode"), 3) \o T3("aphc", 9)
       [] c = "azaz" -> Fix(Val(h, "azaz"), 14, 4)
       [] c = "ssu" -> S("ssu", 20)
       [] c = "intv" -> Fix(Val(h, "intv"), 10, 3)
       [] c \in {"first", "last"} -> Tm(c)
       [] c \in {"rco", "leap", "nsat"} -> IFix(Val(h, c), 6)
Label(c) ==
  CASE c = "pgm" -> "PGM / RUN BY / DATE" [] c = "mname" -> "MARKER NAME" [] c = "mnum" -> "MARKER NUMBER" [] c = "mtype" -> "MARKER TYPE"
    [] c = "obsr" -> "OBSERVER / AGENCY" [] c = "recno" -> "REC # / TYPE / VERS" [] c = "antno" -> "ANT # / TYPE"
    [] c = "apos" -> "APPROX POSITION XYZ" [] c = "ahen" -> "ANTENNA: DELTA H/E/N" [] c = "axyz" -> "ANTENNA: DELTA X/Y/Z"
    [] c = "aphc" -> "ANTENNA: PHASECENTER" [] c = "absi" -> "ANTENNA: B.SIGHT XYZ" [] c = "azaz" -> "ANTENNA: ZERODIR AZI"
    [] c = "azxyz" -> "ANTENNA: ZERODIR XYZ" [] c = "com" -> "CENTER OF MASS: XYZ" [] c = "ssu" -> "SIGNAL STRENGTH UNIT"
    [] c = "intv" -> "INTERVAL" [] c = "first" -> "TIME OF FIRST OBS" [] c = "last" -> "TIME OF LAST OBS" [] c = "rco" -> "RCV CLOCK OFFS APPL"
    [] c = "leap" -> "LEAP SECONDS" [] c = "nsat" -> "# OF SATELLITES"
OneLine == {"pgm", "mname", "mnum", "mtype", "obsr", "recno", "antno", "apos", "ahen", "axyz", "aphc", "absi", "azaz", "azxyz", "com",
            "ssu", "intv", "first", "last", "rco", "leap", "nsat"}
LabelOf(line) == RTrim(SubSeq(line, 61, Len(line)))
Labels == { Label(c) : c \in OneLine }
ClassOf(lab) == CHOOSE c \in OneLine : Label(c) = lab
\* every simple record present has its line, every line of the header has a label and at most 80 columns
HeadTextOK(h, lines) ==
  /\ \A i \in DOMAIN lines : Len(lines[i]) > 60 /\ Len(lines[i]) <= 80
  /\ \A i \in DOMAIN lines : LET lab == LabelOf(lines[i]) IN lab \in Labels => Has(h, ClassOf(lab)) /\ RTrim(SubSeq(lines[i], 1, 60)) = RTrim(Body(h, ClassOf(lab)))
  /\ \A c \in OneLine : Has(h, c) => \E i \in DOMAIN lines : LabelOf(lines[i]) = Label(c)
  /\ LabelOf(lines[1]) = "RINEX VERSION / TYPE" /\ LabelOf(lines[Len(lines)]) = "END OF HEADER"
\* data records
Event(r) == Val(r, "flag") \in 2..5
Written(r) == Event(r) \/ Len(r) > 6
Zero(x) == x[2] = 0 /\ x[3] = 0 /\ x[4] = 0
EpochLine(r, c) ==
  ">" \o (IF c = <<>> THEN Sp(28)
          ELSE " " \o IFix(ValK(c, "Y", ""), 4) \o " " \o IFixZ(ValK(c, "M", ""), 2) \o " " \o IFixZ(ValK(c, "D", ""), 2) \o " "
               \o IFixZ(ValK(c, "h", ""), 2) \o " " \o IFixZ(ValK(c, "m", ""), 2) \o Fix(Val(c, "s"), 11, 7))
  \o Sp(2) \o IFix(Val(r, "flag"), 1) \o IFix(Val(r, "nsv"), 3) \o Sp(6)
  \o (IF Zero(Val(r, "clk")) THEN "" ELSE Fix(Val(r, "clk"), 15, 12))
Flg(n) == IF n < 0 THEN " " ELSE ToString(n)
Datum(b, d, l, s) == (IF b THEN Sp(14) ELSE Fix(d, 14, 3)) \o Flg(l) \o Flg(s)
\* the fields of one datum are four consecutive entries
RECURSIVE DataLines(_, _, _, _)
DataLines(r, i, sat, line) ==
  IF i > Len(r) THEN (IF sat = "" THEN <<>> ELSE <<line>>)
  ELSE LET s == SubSeq(r[i][2], 1, 3)
           t == Datum(r[i][3], r[i+1][3], r[i+2][3], r[i+3][3])
       IN IF s = sat THEN DataLines(r, i + 4, sat, line \o t)
          ELSE (IF sat = "" THEN <<>> ELSE <<line>>) \o DataLines(r, i + 4, s, s \o t)
FirstDatum(r) == IF r[4][3] THEN 5 ELSE 7      \* after flag, nsv, clk, notime and the time
DataTextOK(r, c, lines) ==
  IF ~Written(r) THEN lines = <<>>
  ELSE /\ RTrim(lines[1]) = RTrim(EpochLine(r, c))
       /\ IF Event(r) THEN Len(lines) = 1 + Val(r, "nsv")
          ELSE Tail(lines) = DataLines(r, FirstDatum(r), "", "")
=============================================================================
