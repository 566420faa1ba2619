-------------------------------- MODULE Names --------------------------------
(* The names of satellites and of observations: RINEX and SP3 text forms, the *)
(* RINEX 3 observation code tables, wildcards, and the navigation message     *)
(* each signal carries.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* name of the system |-> RINEX character, RINEX three characters, RINEX name, SP3 character ("" where there is none)
Sys == ("GPS" :> <<"G", "GPS", "GPS", "G">>) @@ ("Galileo" :> <<"E", "GAL", "Galileo", "E">>)
    @@ ("GLONASS" :> <<"R", "GLO", "GLONASS", "R">>) @@ ("Geostationary" :> <<"S", "GEO", "Geosync", "">>)
    @@ ("LEO" :> <<"", "", "", "L">>) @@ ("Transit" :> <<"T", "TRN", "Transit", "">>)
    @@ ("BeiDou" :> <<"C", "BDS", "BeiDou", "C">>) @@ ("QZSS" :> <<"J", "QZS", "QZSS", "J">>)
    @@ ("IRNSS" :> <<"I", "IRN", "IRNSS", "">>) @@ ("Mixed" :> <<"M", "", "", "M">>)
SysNames == DOMAIN Sys \cup {"Unknown", "UserDefined"}
Col(fmt) == IF fmt = "rinex" THEN 1 ELSE 4
OfChar(fmt, c) == LET S == {n \in DOMAIN Sys : Sys[n][Col(fmt)] = c} IN IF S = {} THEN "" ELSE CHOOSE n \in S : TRUE
Has(fmt, n) == n \in DOMAIN Sys /\ Sys[n][Col(fmt)] # ""

\* the number printed and the number meant
Shown(fmt, n, id) ==
  IF id = -1 THEN -1
  ELSE IF n = "Geostationary" THEN id - 100
  ELSE IF n = "QZSS" THEN (IF id >= 193 \/ fmt = "sp3" THEN id - 192 ELSE id - 100)
  ELSE id
Meant(fmt, n, k) ==
  IF k <= 0 THEN -1
  ELSE IF n = "Geostationary" THEN k + 100
  ELSE IF n = "QZSS" THEN (IF k < 83 \/ fmt = "sp3" THEN k + 192 ELSE k + 100)
  ELSE k
Two(k, fill) == LET s == ToString(k) IN IF Len(s) < 2 THEN fill \o s ELSE s
SatText(fmt, n, id, fill) == Sys[n][Col(fmt)] \o Two(Shown(fmt, n, id), fill)

-----------------------------------------------------------------------------
(* system |-> band |-> attributes, the band and the code each stands for      *)
A(b, s) == << b, s >>
Codes ==
  ("G" :> (("1" :> A("L1", ("C" :> "CA") @@ ("S" :> "L1CD") @@ ("L" :> "L1CP") @@ ("X" :> "L1CDP") @@ ("P" :> "P") @@ ("W" :> "Ztracking")
                          @@ ("Y" :> "Y") @@ ("M" :> "MDP") @@ ("N" :> "YCodeless")))
       @@ ("2" :> A("L2", ("C" :> "CA") @@ ("D" :> "Semicodeless") @@ ("S" :> "L2CM") @@ ("L" :> "L2CL") @@ ("X" :> "L2CML") @@ ("P" :> "P")
                          @@ ("W" :> "Ztracking") @@ ("Y" :> "Y") @@ ("M" :> "MDP") @@ ("N" :> "YCodeless")))
       @@ ("5" :> A("L5", ("I" :> "L5I") @@ ("Q" :> "L5Q") @@ ("X" :> "L5IQ")))))
  @@ ("R" :> (("1" :> A("G1", ("C" :> "Standard") @@ ("P" :> "Precise")))
       @@ ("2" :> A("G2", ("C" :> "Standard") @@ ("P" :> "Precise")))
       @@ ("3" :> A("G3", ("I" :> "L3OCD") @@ ("Q" :> "L3OCP") @@ ("X" :> "L3OCDP")))
       @@ ("4" :> A("G1a", ("A" :> "L1OCD") @@ ("B" :> "L1OCP") @@ ("X" :> "L1OCDP")))
       @@ ("6" :> A("G2a", ("A" :> "L2CSI") @@ ("B" :> "L2OCP") @@ ("X" :> "L2CSIL2OCp")))))
  @@ ("E" :> (("1" :> A("L1", ("A" :> "E1A") @@ ("B" :> "E1B") @@ ("C" :> "E1C") @@ ("X" :> "E1BC") @@ ("Z" :> "E1ABC")))
       @@ ("5" :> A("L5", ("I" :> "E5aI") @@ ("Q" :> "E5aQ") @@ ("X" :> "E5aIQ")))
       @@ ("7" :> A("E5b", ("I" :> "E5bI") @@ ("Q" :> "E5bQ") @@ ("X" :> "E5bIQ")))
       @@ ("8" :> A("E5ab", ("I" :> "E5abI") @@ ("Q" :> "E5abQ") @@ ("X" :> "E5abIQ")))
       @@ ("6" :> A("E6", ("A" :> "E6A") @@ ("B" :> "E6B") @@ ("C" :> "E6C") @@ ("X" :> "E6BC") @@ ("Z" :> "E6ABC")))))
  @@ ("S" :> (("1" :> A("L1", ("C" :> "CA"))) @@ ("5" :> A("L5", ("I" :> "L5I") @@ ("Q" :> "L5Q") @@ ("X" :> "L5IQ")))))
  @@ ("C" :> (("1" :> A("L1", ("P" :> "B1CP") @@ ("D" :> "B1CD") @@ ("X" :> "B1CDP") @@ ("A" :> "B1A") @@ ("N" :> "BCodeless")))
       @@ ("2" :> A("B1", ("I" :> "B1I") @@ ("Q" :> "B1Q") @@ ("X" :> "B1IQ")))
       @@ ("5" :> A("L5", ("D" :> "B2aI") @@ ("P" :> "B2aQ") @@ ("X" :> "B2aIQ")))
       @@ ("7" :> A("B2", ("I" :> "B2I") @@ ("Q" :> "B2Q") @@ ("X" :> "B2IQ") @@ ("D" :> "B2bI") @@ ("P" :> "B2bQ") @@ ("Z" :> "B2bIQ")))
       @@ ("8" :> A("E5ab", ("D" :> "B2abI") @@ ("P" :> "B2abQ") @@ ("X" :> "B2abIQ")))
       @@ ("6" :> A("B3", ("I" :> "B3I") @@ ("Q" :> "B3Q") @@ ("X" :> "B3IQ") @@ ("A" :> "B3AIQ")))))
  @@ ("J" :> (("1" :> A("L1", ("C" :> "CA") @@ ("S" :> "L1CD") @@ ("L" :> "L1CP") @@ ("X" :> "L1CDP") @@ ("Z" :> "L1S")))
       @@ ("2" :> A("L2", ("S" :> "L2CM") @@ ("L" :> "L2CL") @@ ("X" :> "L2CML")))
       @@ ("5" :> A("L5", ("I" :> "L5I") @@ ("Q" :> "L5Q") @@ ("X" :> "L5IQ") @@ ("D" :> "L5SI") @@ ("P" :> "L5SQ") @@ ("Z" :> "L5SIQ")))
       @@ ("6" :> A("E6", ("S" :> "LEXS") @@ ("L" :> "LEXL") @@ ("X" :> "LEXSL") @@ ("E" :> "L6E") @@ ("Z" :> "L6DE")))))
  @@ ("I" :> (("5" :> A("L5", ("A" :> "SPSL5") @@ ("B" :> "RSL5D") @@ ("C" :> "RSL5P") @@ ("X" :> "RSL5DP")))
       @@ ("9" :> A("I9", ("A" :> "SPSS") @@ ("B" :> "RSSD") @@ ("C" :> "RSSP") @@ ("X" :> "RSSDP")))))
Kinds == ("C" :> "Range") @@ ("L" :> "Phase") @@ ("D" :> "Doppler") @@ ("S" :> "SNR")
ObsSys == DOMAIN Codes
InTable(s, b, a) == b \in DOMAIN Codes[s] /\ a \in DOMAIN Codes[s][b][2]
\* RINEX 3.02 calls the BeiDou band of 1561 MHz 1 instead of 2: I and Q are known by that name in every version, X only in it
Old(s, b, a) == s = "C" /\ b = "1" /\ a \in {"I", "Q"}
Renamed(s, b, a, ver) == Old(s, b, a) \/ (s = "C" /\ b = "1" /\ a = "X" /\ ver = 302)
\* there is no pseudorange of the codeless signals of GPS
Valid(s, t, b, a) ==
  /\ t \in DOMAIN Kinds
  /\ InTable(s, b, a) \/ Old(s, b, a)
  /\ ~(s = "G" /\ t = "C" /\ a = "N")
Entry(s, b, a, ver) == IF Renamed(s, b, a, ver) THEN <<"2", a>> ELSE <<b, a>>
Band(s, b, a, ver) == Codes[s][Entry(s, b, a, ver)[1]][1]
Code(s, b, a, ver) == Codes[s][Entry(s, b, a, ver)[1]][2][a]
\* written in version ver, a signal read as b, a in version rd
Written(s, t, b, a, rd, ver) ==
  LET x == Entry(s, b, a, rd) IN IF s = "C" /\ x[1] = "2" /\ ver = 302 THEN t \o "1" \o a ELSE t \o x[1] \o a
\* RINEX 3.02 has no name for the third code of the BeiDou signal B1C
Sayable(s, b, a, rd, ver) == ~(ver = 302 /\ s = "C" /\ Entry(s, b, a, rd) = <<"1", "X">>)
\* an observation put together from its parts: the characters of the parts; an ionospheric delay has no code, and a channel
\* number neither band nor code
BandChar(band) == CHOOSE b \in {"1", "2", "3", "4", "5", "6", "7", "8", "9"} : \E s \in ObsSys : b \in DOMAIN Codes[s] /\ Codes[s][b][1] = band
CodeChar(code) == CHOOSE a \in UNION { DOMAIN Codes[s][b][2] : <<s, b>> \in { <<s, b>> \in ObsSys \X {"1", "2", "3", "4", "5", "6", "7", "8", "9"} : b \in DOMAIN Codes[s] } } :
                    \E s \in ObsSys : \E b \in DOMAIN Codes[s] : a \in DOMAIN Codes[s][b][2] /\ Codes[s][b][2][a] = code
KindChar(type) == CHOOSE t \in DOMAIN Kinds : Kinds[t] = type
Spoken(type, band, code) ==
  CASE type = "Channel" -> "X1 "
    [] type = "Iono" -> "I" \o BandChar(band) \o " "
    [] OTHER -> KindChar(type) \o BandChar(band) \o CodeChar(code)
\* pseudo-observations: channel number, and the ionospheric delay on a band of the system
ValidX(s, b) == b = "1"
ValidI(s, b) == b \in DOMAIN Codes[s]

-----------------------------------------------------------------------------
(* Identifiers of observations: Any stands for every value.                   *)
Same(x, y) == x = "Any" \/ y = "Any" \/ x = y
ObsEq(p, q) == \A i \in 1..3 : Same(p[i], q[i])

(* The message on a signal.                                                   *)
NavOf(s, id, b, c) ==
  LET gps == CASE b = "L1" /\ c = "CA" -> "GPS_LNAV"
               [] b = "L2" /\ c \in {"L2CM", "L2CL", "L2CML"} -> "GPS_CNAV_L2"
               [] b = "L5" /\ c \in {"L5I", "L5Q", "L5IQ"} -> "GPS_CNAV_L5"
               [] b = "L1" /\ c \in {"L1CP", "L1CD", "L1CDP"} -> "GPS_CNAV2"
               [] OTHER -> "Unknown"
  IN  CASE s = "GPS" -> IF b \in {"L1", "L2"} /\ c \in {"CA", "P", "Y", "Ztracking", "YCodeless", "Semicodeless"} THEN "GPS_LNAV"
                        ELSE IF b \in {"L1", "L2"} /\ c = "MDP" THEN "GPS_MNAV" ELSE gps
        [] s = "QZSS" -> gps
        [] s = "BeiDou" -> IF b \in {"B1", "B2", "B3"} /\ c \in {"B1I", "B1Q", "B1IQ", "B2I", "B2Q", "B2IQ", "B3I", "B3Q", "B3IQ"}
                           THEN (IF id > 5 THEN "Beidou_D1" ELSE "Beidou_D2") ELSE "Unknown"
        [] s = "GLONASS" -> IF b \in {"G1", "G2"} /\ c = "Standard" THEN "GloCivilF"
                            ELSE IF b = "G3" /\ c \in {"L3OCD", "L3OCP", "L3OCDP"} THEN "GloCivilC" ELSE "Unknown"
        [] s = "Galileo" -> IF b = "L1" /\ c = "E1B" THEN "GalINAV" ELSE IF b = "E5b" /\ c \in {"E5bI", "E5bIQ"} THEN "GalINAV"
                            ELSE IF b = "L5" /\ c \in {"E5aI", "E5aIQ"} THEN "GalFNAV" ELSE "Unknown"
        [] s = "IRNSS" -> IF b = "L5" /\ c \in {"SPSL5", "RSL5D", "RSL5P", "RSL5DP"} THEN "IRNSS_SPS" ELSE "Unknown"
        [] OTHER -> "Unknown"

-----------------------------------------------------------------------------
(* Satellites are ordered by system, then number.                             *)
SatLt(a, b) == IF a[1] = b[1] THEN a[2] < b[2] ELSE a[1] < b[1]
SatValid(n, id) == id > 0 /\ (IF n = "GPS" THEN id <= 32 ELSE id < 100)
\* observations by band, then code, then type
ObsLt(p, q) == IF p[2] # q[2] THEN p[2] < q[2] ELSE IF p[3] # q[3] THEN p[3] < q[3] ELSE p[1] < q[1]
\* what a satellite written as spaces, a system character, spaces and a number means
Upper == ("g" :> "G") @@ ("e" :> "E") @@ ("r" :> "R") @@ ("s" :> "S") @@ ("l" :> "L") @@ ("t" :> "T") @@ ("c" :> "C")
      @@ ("j" :> "J") @@ ("i" :> "I") @@ ("m" :> "M")
Cap(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c
Parsed(fmt, c, k) == IF c = "" THEN <<"GPS", Meant(fmt, "GPS", k)>> ELSE <<OfChar(fmt, Cap(c)), Meant(fmt, OfChar(fmt, Cap(c)), k)>>
\* the same slot for an observation in a header: the band alone tells ionospheric delays apart
Slot(p, q) == p[1] = q[1] /\ (CASE p[1] = "Iono" -> p[2] = q[2] [] p[1] = "Channel" -> TRUE [] OTHER -> Same(p[2], q[2]) /\ Same(p[3], q[3]))
=============================================================================
