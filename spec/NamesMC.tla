------------------------------- MODULE NamesMC -------------------------------
(* The tables say what they should: text forms are read back as what was      *)
(* written, and different things have different texts.                        *)
EXTENDS Names
VARIABLE x    \* the thing looked at
Ids(n) == IF n = "QZSS" THEN 183..210 ELSE IF n = "Geostationary" THEN 101..199 ELSE 1..99
SatThings == UNION {{<<"sat", f, n, i>> : i \in Ids(n) \cup {-1}} : f \in {"rinex", "sp3"}, n \in DOMAIN Sys}
ObsThings == UNION {UNION {{<<"obs", s, b, a, v>> : a \in DOMAIN Codes[s][b][2] \cup (IF s = "C" THEN {"I", "Q"} ELSE {}), v \in {300, 302, 304}}
              : b \in DOMAIN Codes[s]} : s \in ObsSys}
Sensible(t) == IF t[1] = "sat" THEN Has(t[2], t[3]) /\ (t[2] = "sp3" => (t[3] = "QZSS" => t[4] = -1 \/ t[4] > 192)) ELSE Valid(t[2], "L", t[3], t[4])
Init == x \in {t \in SatThings \cup ObsThings : Sensible(t)}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
SatBack == x[1] = "sat" => /\ OfChar(x[2], Sys[x[3]][Col(x[2])]) = x[3]
                           /\ Meant(x[2], x[3], Shown(x[2], x[3], x[4])) = x[4]
                           /\ Len(SatText(x[2], x[3], x[4], "0")) = 3
SatApart == x[1] = "sat" =>
  \A i \in Ids(x[3]) : (i # x[4] /\ (x[2] = "rinex" \/ i > 192 \/ x[3] # "QZSS")) => SatText(x[2], x[3], i, "0") # SatText(x[2], x[3], x[4], "0")
\* what is written for a signal, read by the rules of that version, is that signal
ObsBack == x[1] = "obs" =>
  \A w \in {v \in {300, 302, 304} : Sayable(x[2], x[3], x[4], x[5], v)} : LET t == Written(x[2], "L", x[3], x[4], x[5], w)
                                 b == SubSeq(t, 2, 2)
                                 a == SubSeq(t, 3, 3) IN
    /\ Valid(x[2], "L", b, a)
    /\ Band(x[2], b, a, w) = Band(x[2], x[3], x[4], x[5])
    /\ Code(x[2], b, a, w) = Code(x[2], x[3], x[4], x[5])
\* no two codes of a system and version stand for one signal, but for the two names of the BeiDou band
ObsApart == x[1] = "obs" =>
  \A b \in DOMAIN Codes[x[2]] : \A a \in DOMAIN Codes[x[2]][b][2] :
    (Band(x[2], b, a, x[5]) = Band(x[2], x[3], x[4], x[5]) /\ Code(x[2], b, a, x[5]) = Code(x[2], x[3], x[4], x[5]))
      => Entry(x[2], b, a, x[5]) = Entry(x[2], x[3], x[4], x[5])
=============================================================================
