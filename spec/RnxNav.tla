------------------------------- MODULE RnxNav -------------------------------
(* RINEX navigation files, versions 2 and 3: the layout of a record by         *)
(* satellite system, the weeks of transmission and of ephemeris, header        *)
(* records, and what the text keeps.                                           *)
EXTENDS RecText
WEEK == 604800
HALF == 302400
\* ---- numbers ------------------------------------------------------------------
Pow(n) == IF n <= 9 THEN P10(n) ELSE P10(9)
Digits(n) == CHOOSE k \in 1..10 : (k = 1 \/ n >= Pow(k - 1)) /\ (k = 10 \/ n < Pow(k))
\* an integer of at most seven digits in exponential form
IntE(n) == IF n = 0 THEN <<1, 0, 0, 0>>
           ELSE LET a == IF n < 0 THEN -n ELSE n  k == Digits(a)
                IN <<IF n < 0 THEN -1 ELSE 1, a * P10(7 - k), 0, k - 1>>
\* m digits behind the point, first one not 0, in width w
EText(x, m, w) ==
  LET r == KeepE(x, m)
      dig == IF r[2] = 0 THEN Rep("0", 15) ELSE ToString(r[2]) \o ZJ(ToString(r[3]), 8)
      e == IF r[2] = 0 THEN 0 ELSE r[4] + 1
  IN RJ((IF r[1] < 0 THEN "-" ELSE "") \o "." \o SubSeq(dig, 1, m) \o "D" \o (IF e < 0 THEN "-" ELSE "+") \o ZJ(ToString(IF e < 0 THEN -e ELSE e), 2), w)
\* ---- records ---------------------------------------------------------------------
Orbit(s) ==
  CASE s \in {"G", "J"} -> << <<"af0", "af1", "af2">>, <<"IODE", "Crs", "dn", "M0">>, <<"Cuc", "ecc", "Cus", "Ahalf">>, <<"Toe", "Cic", "OM0", "Cis">>,
        <<"i0", "Crc", "w", "OMd">>, <<"idot", "cflg", "wk", "L2P">>, <<"acc", "hlth", "Tgd", "IODC">>, <<"xmit", "fit">> >>
    [] s = "E" -> << <<"af0", "af1", "af2">>, <<"IODn", "Crs", "dn", "M0">>, <<"Cuc", "ecc", "Cus", "Ahalf">>, <<"Toe", "Cic", "OM0", "Cis">>,
        <<"i0", "Crc", "w", "OMd">>, <<"idot", "dsrc", "wk", "zero">>, <<"acc", "hlth", "Tgd", "Tgd2">>, <<"xmit">> >>
    [] s = "C" -> << <<"af0", "af1", "af2">>, <<"IODE", "Crs", "dn", "M0">>, <<"Cuc", "ecc", "Cus", "Ahalf">>, <<"Toe", "Cic", "OM0", "Cis">>,
        <<"i0", "Crc", "w", "OMd">>, <<"idot", "zero", "wk", "zero">>, <<"acc", "hlth", "Tgd", "Tgd2">>, <<"xmit", "IODC">> >>
    [] s = "R" -> << <<"TauN", "Gam", "MFt">>, <<"px", "vx", "ax", "hlth">>, <<"py", "vy", "ay", "freq">>, <<"pz", "vz", "az", "age">> >>
    [] s = "S" -> << <<"TauN", "Gam", "MFt">>, <<"px", "vx", "ax", "hlth">>, <<"py", "vy", "ay", "accC">>, <<"pz", "vz", "az", "IODN">> >>
\* version 2.0 has no fit interval
Layout(s, v) == LET o == Orbit(s) IN IF v < 210 /\ s = "G" THEN [o EXCEPT ![8] = <<"xmit">>] ELSE o
\* the week and second of transmission as the file has them: relative to the week of Toe
FileTx(t) ==   \* t = <<week of transmission, second, Toe>>
  IF t[2] - t[3] > HALF THEN <<t[1] + 1, t[2] - WEEK>>
  ELSE IF t[2] - t[3] < -HALF THEN <<t[1] - 1, t[2] + WEEK>>
  ELSE <<t[1], t[2]>>
\* a reader takes the transmission to be within half a week of Toe
SameTx(a, b) == (a[1] = b[1] /\ a[2] = b[2]) \/ (a[1] - b[1] = 1 /\ b[2] - a[2] = WEEK) \/ (b[1] - a[1] = 1 /\ a[2] - b[2] = WEEK)
\* in version 2 the GLONASS frame time is in seconds of the day
FileMF(r, v) == IF Val(r, "sys") = "R" /\ v < 300 THEN (Val(r, "MFt") % 86400) ELSE Val(r, "MFt")
Ints == {"cflg", "L2P", "hlth", "dsrc", "freq"}
FieldE(r, n, v) ==
  CASE n = "zero" -> <<1, 0, 0, 0>>
    [] n = "wk" -> IntE(FileTx(Val(r, "tx"))[1])
    [] n = "xmit" -> IntE(FileTx(Val(r, "tx"))[2])
    [] n = "MFt" -> IntE(FileMF(r, v))
    [] n \in Ints -> IntE(Val(r, n))
    [] OTHER -> Val(r, n)
RECURSIVE Fields(_, _, _, _)
Fields(r, ns, i, v) == IF i > Len(ns) THEN "" ELSE EText(FieldE(r, ns[i], v), 12, 19) \o Fields(r, ns, i + 1, v)
EpochText(r, c, v) ==
  IF v >= 300 THEN Val(r, "sat") \o " " \o IFixZ(c[1], 4) \o " " \o IFixZ(c[2], 2) \o " " \o IFixZ(c[3], 2) \o " " \o IFixZ(c[4], 2) \o " " \o IFixZ(c[5], 2) \o " " \o IFixZ(c[6] \div 10, 2)
  ELSE IFix(Val(r, "prn"), 2) \o " " \o IFixZ(c[1] % 100, 2) \o " " \o IFix(c[2], 2) \o " " \o IFix(c[3], 2) \o " " \o IFix(c[4], 2) \o " " \o IFix(c[5], 2)
       \o Fix(<<1, c[6] \div 10, (c[6] % 10) * 100000, 0>>, 5, 1)
RecTextOK(r, c, v, lines) ==
  LET lay == Layout(Val(r, "sys"), v) IN
  /\ Len(lines) = Len(lay)
  /\ lines[1] = EpochText(r, c, v) \o Fields(r, lay[1], 1, v)
  /\ \A i \in 2..Len(lay) : lines[i] = Sp(IF v >= 300 THEN 4 ELSE 3) \o Fields(r, lay[i], 1, v)
KeptVal(r, n, v) ==
  CASE n = "MFt" -> IF Val(r, "sys") = "R" /\ v < 300 THEN Val(r, "dow") * 86400 + (Val(r, n) % 86400) ELSE Val(r, n)
    [] n \in Ints -> Val(r, n)
    [] n = "zero" -> 0
    [] OTHER -> KeepE(Val(r, n), 12)
SameNav(a, b, v) ==
  /\ Val(a, "sys") = Val(b, "sys") /\ Val(a, "sat") = Val(b, "sat") /\ Val(a, "prn") = Val(b, "prn")
  /\ Val(a, "t") = Val(b, "t")
  /\ LET lay == Layout(Val(a, "sys"), v) IN
     \A i \in DOMAIN lay : \A j \in DOMAIN lay[i] :
       LET n == lay[i][j] IN
       IF n = "wk" \/ n = "zero" THEN TRUE
       ELSE IF n = "xmit" THEN SameTx(Val(a, "tx"), Val(b, "tx"))
       ELSE KeptVal(a, n, v) = KeptVal(b, n, v)
TSys(s) == CASE s \in {"G", "S"} -> "GPS" [] s = "R" -> "GLO" [] s = "E" -> "GAL" [] s = "C" -> "BDT" [] s = "J" -> "QZS"
\* ---- header ---------------------------------------------------------------------------
\* classes: ver type sys pgm runby comment iono(key: kind+index) tcA0 tcA1 tcsow tcwk tcprov tcid tcymd leap(0..3)
InHead(f, v) ==
  CASE f[1] \in {"iono"} -> v >= 300 \/ SubSeq(f[2], 1, 4) \in {"GPSA", "GPSB"}
    [] f[1] \in {"tcA0"} -> v >= 300 \/ f[2] \in {"GPUT", "GLUT", "SBUT"}
    [] f[1] \in {"tcA1"} -> v >= 300 \/ f[2] \in {"GPUT", "SBUT"}
    [] f[1] \in {"tcsow", "tcwk"} -> v >= 300 \/ f[2] \in {"GPUT", "SBUT"}
    [] f[1] = "tcprov" -> f[2] = "SBUT"
    [] f[1] = "tcid" -> v >= 300 \/ f[2] = "SBUT"
    [] f[1] = "tcymd" -> v < 300 /\ f[2] = "GLUT"
    [] f[1] = "leap" -> v >= 300 \/ f[2] = "0"
    [] f[1] = "fsys" -> TRUE
    [] OTHER -> TRUE
KeepH(f, v) ==
  CASE f[1] \in {"pgm", "runby"} -> KeepS(f[3], 20)
    [] f[1] = "comment" -> KeepS(f[3], 60)
    [] f[1] = "iono" -> IF f[2] = "GAL3" THEN <<1, 0, 0, 0>> ELSE KeepE(f[3], 4)
    [] f[1] = "tcA0" -> KeepE(f[3], IF v >= 300 THEN 10 ELSE 12)
    [] f[1] = "tcA1" -> KeepE(f[3], IF v >= 300 THEN 9 ELSE 12)
    [] f[1] = "tcprov" -> KeepS(f[3], IF v >= 300 THEN 6 ELSE 5)
    [] OTHER -> f[3]
SameHead(a, b) ==
  LET v == Val(b, "ver")
      x == SelectSeq(a, LAMBDA f : InHead(f, v))  y == SelectSeq(b, LAMBDA f : InHead(f, v))
  IN /\ Len(x) = Len(y)
     /\ \A i \in DOMAIN x : x[i][1] = y[i][1] /\ x[i][2] = y[i][2] /\ KeepH(x[i], v) = KeepH(y[i], v)
\* text of the header's correction records, in the order of the format
IonoText(h, k, v) ==
  LET p(i) == EText(ValK(h, "iono", k \o ToString(i)), 4, 12) IN
  IF v >= 300 THEN LJ(k, 5) \o p(0) \o p(1) \o p(2) \o (IF k = "GAL" THEN "   .0000D+00" ELSE p(3)) \o Sp(7) \o "IONOSPHERIC CORR"
  ELSE "  " \o p(0) \o p(1) \o p(2) \o p(3) \o Sp(10) \o (IF k = "GPSA" THEN "ION ALPHA" ELSE "ION BETA")
TcText(h, k, v) ==
  LET q(c) == ValK(h, c, k) IN
  IF v >= 300 THEN k \o " " \o EText(q("tcA0"), 10, 17) \o EText(q("tcA1"), 9, 16) \o IFix(q("tcsow"), 7) \o IFix(q("tcwk"), 5)
                   \o (IF k = "SBUT" THEN RJ(q("tcprov"), 6) \o " " ELSE Sp(7)) \o IFix(q("tcid"), 2) \o " TIME SYSTEM CORR"
  ELSE CASE k = "GPUT" -> "   " \o EText(q("tcA0"), 12, 19) \o EText(q("tcA1"), 12, 19) \o IFix(q("tcsow"), 9) \o IFix(q("tcwk"), 9) \o " DELTA-UTC: A0,A1,T,W"
         [] k = "GLUT" -> IFix(q("tcymd")[1], 6) \o IFix(q("tcymd")[2], 6) \o IFix(q("tcymd")[3], 6) \o Sp(3)
                          \o EText(LET a == q("tcA0") IN IF a[2] = 0 THEN a ELSE <<-a[1], a[2], a[3], a[4]>>, 12, 19) \o Sp(20) \o "CORR TO SYSTEM TIME"
         [] k = "SBUT" -> EText(q("tcA0"), 12, 19) \o EText(q("tcA1"), 12, 19) \o IFix(q("tcsow"), 7) \o IFix(q("tcwk"), 5) \o RJ(q("tcprov"), 6) \o " " \o IFix(q("tcid"), 2) \o " D-UTC A0,A1,T,W,S,U"
InTc(k, v) == v >= 300 \/ k \in {"GPUT", "GLUT", "SBUT"}
HeadLines(h) ==
  LET v == Val(h, "ver")
      com == [ i \in DOMAIN All(h, "comment") |-> LJ(All(h, "comment")[i][3], 60) \o "COMMENT" ]
      ik == SelectSeq(<<"GAL", "GPSA", "GPSB">>, LAMBDA k : (\E i \in DOMAIN h : h[i][1] = "iono" /\ h[i][2] = k \o "0") /\ (v >= 300 \/ k # "GAL"))
      tk == SelectSeq(All(h, "tcA0"), LAMBDA f : InTc(f[2], v))
      lp(i) == IFix(ValK(h, "leap", ToString(i)), 6)
  IN com \o [ i \in DOMAIN ik |-> IonoText(h, ik[i], v) ] \o [ i \in DOMAIN tk |-> TcText(h, tk[i][2], v) ]
     \o (IF Has(h, "leap") THEN << lp(0) \o (IF v >= 300 THEN lp(1) \o lp(2) \o lp(3) \o Sp(36) ELSE Sp(54)) \o "LEAP SECONDS" >> ELSE <<>>)
     \o << Sp(60) \o "END OF HEADER" >>
SysLetter(h) == IF Val(h, "ver") >= 300 THEN "N" ELSE CASE Val(h, "fsys") = "G" -> "N" [] Val(h, "fsys") = "R" -> "G" [] Val(h, "fsys") = "S" -> "H"
HeadOK(h, lines, native) ==
  LET v == Val(h, "ver")  vt == ToString(v \div 100) \o "." \o ZJ(ToString(v % 100), 2) IN
  /\ Len(lines) > 2
  /\ Trim(SubSeq(lines[1], 1, 20)) = vt /\ Ch(lines[1], 21) = SysLetter(h) /\ (v >= 300 => Ch(lines[1], 41) = Val(h, "fsys"))
  /\ SubSeq(lines[1], 61, Len(lines[1])) = "RINEX VERSION / TYPE"
  /\ SubSeq(lines[2], 1, 40) = LJ(Val(h, "pgm"), 20) \o LJ(Val(h, "runby"), 20) /\ SubSeq(lines[2], 61, Len(lines[2])) = "PGM / RUN BY / DATE"
  /\ SubSeq(lines, 3, Len(lines)) = HeadLines(h)
=============================================================================
