---------------------------- MODULE TimeTextTrace ----------------------------
EXTENDS TimeText, Instant, TraceBase
VARIABLES t, s         \* the instant held and its time system
TInit == t = <<2451545, 0, 0>> /\ s = "UTC" /\ l = 1
\* an item is [lit, ch, flag, w, raw]; the text printed is the concatenation
Item(i) == i.lit \o (IF i.ch = "" THEN "" ELSE IF Has(t, i.ch) THEN Fill(Field(t, s, i.ch), i.flag, i.w) ELSE i.raw)
RECURSIVE Text(_, _)
Text(f, i) == IF i > Len(f) THEN "" ELSE Item(f[i]) \o Text(f, i + 1)
Fine(x) == <<x[1], x[2] * 1000 + x[3] \div 1000, (x[3] % 1000) * 1000>>
Holds(x) == Ev.x = "ok" /\ NearT(NormT(Ev.r), Fine(x), 1000)
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ t' = Ev.t /\ s' = Ev.s
     \/ Is("print") /\ Ev.text = Text(Ev.fmt, 1) /\ UNCHANGED <<t, s>>
     \/ Is("scan") /\ Holds(Grain(t, Ev.g)) /\ Ev.s = s /\ UNCHANGED <<t, s>>
     \/ Is("mixed") /\ LET L == { Ev.L[i] : i \in 1..Len(Ev.L) } IN
          Holds(Override(Ev.u, t, L)) /\ Ev.s = (IF "P" \in L THEN s ELSE Ev.us) /\ UNCHANGED <<t, s>>
     \/ Is("short") /\ Ev.x = "InvalidRequest" /\ Ev.kept /\ UNCHANGED <<t, s>>
     \/ Is("error") /\ (\A i \in 1..Len(Ev.hd) : Ev.hd[i] \in {"<Bad", "<Err"}) /\ UNCHANGED <<t, s>>
     \/ Is("bad") /\ Ev.x # "ok" /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_<<t, s, l>>
=============================================================================
