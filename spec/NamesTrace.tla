----------------------------- MODULE NamesTrace ------------------------------
EXTENDS Names, TraceBase
VARIABLES named,   \* the names met so far, of each kind
          codes    \* the signal each RINEX text of a system was written for
Kind0 == [k \in {"sys", "band", "code", "type", "nav", "frame", "time"} |-> {}]
TInit == l = 1 /\ named = Kind0 /\ codes = {}

\* the i-th name of a kind: its own, and read as itself
EnumOK(e) == /\ \A p \in named[e.k] : (p[1] = e.s) <=> (p[2] = e.i)
             /\ e.s # "???" /\ e.s # "" /\ e.back = e.i
SatOK(e) ==
  IF Has(e.fmt, e.n)
  THEN /\ e.hn = e.n /\ e.hi = e.id                     \* held as given
       /\ e.ch = (IF e.fmt = "rinex" /\ e.n = "Mixed" THEN "?" ELSE Sys[e.n][Col(e.fmt)])
       /\ (e.fmt = "rinex" /\ e.n # "Mixed" => e.s3 = Sys[e.n][2] /\ e.sys = Sys[e.n][3])
       /\ (~(e.fmt = "rinex" /\ e.n = "Mixed") => /\ e.txt = SatText(e.fmt, e.n, e.id, e.fill)
                                                  /\ e.x = "ok" /\ e.bn = e.n /\ e.bi = e.id)
  ELSE e.hn = "Unknown" /\ e.hi = -1 /\ e.ch = "?"
ParseOK(e) ==
  IF e.c # "" /\ OfChar(e.fmt, Cap(e.c)) = "" THEN e.x # "ok"
  ELSE e.x = "ok" /\ <<e.n, e.id>> = Parsed(e.fmt, e.c, e.k)
CmpOK(e, lt, eq) == /\ e.eq = eq /\ e.ne = ~eq /\ e.lt = lt /\ e.ge = ~lt /\ e.gt = (~lt /\ ~eq) /\ e.le = (lt \/ eq)
CodeOK(e) ==
  LET v == Valid(e.s, e.t, e.b, e.a) IN
  /\ e.valid = v
  /\ e.any = (\E s \in ObsSys : Valid(s, e.t, e.b, e.a))
  /\ (v => /\ e.x = "ok"
           /\ e.type = Kinds[e.t] /\ e.band = Band(e.s, e.b, e.a, e.rd) /\ e.code = Code(e.s, e.b, e.a, e.rd)
           /\ e.w300 = Written(e.s, e.t, e.b, e.a, e.rd, 300)
           /\ e.w302 = Written(e.s, e.t, e.b, e.a, e.rd, 302)
           /\ e.w304 = Written(e.s, e.t, e.b, e.a, e.rd, 304)
           /\ (Sayable(e.s, e.b, e.a, e.rd, e.ver) => e.same))                            \* read again from what was written for the version, it is the same signal
CodesOK(e) == \A c \in codes : (c[1] = e.s /\ c[2] = e.w304) => c[3] = <<e.type, e.band, e.code>>
PseudoOK(e) ==
  LET v == IF e.t = "X" THEN ValidX(e.s, e.b) ELSE ValidI(e.s, e.b) IN
  IF v THEN e.valid /\ e.x = "ok" /\ e.w = e.t \o e.b \o " " /\ e.type = (IF e.t = "X" THEN "Channel" ELSE "Iono")
  ELSE ~e.valid
PairOK(e) ==
  LET p == e.p
      q == e.q IN
  /\ e.eq = ObsEq(p, q) /\ e.ne = ~ObsEq(p, q)
  /\ e.lt = ObsLt(e.po, e.qo)
  /\ e.slot = Slot(p, q)
  /\ (e.w # "" => e.w = Spoken(p[1], p[2], p[3]))
TNext ==
  /\ More
  /\ l' = l + 1
  /\ \/ Is("new") /\ named' = Kind0 /\ codes' = {}
     \/ Is("enum") /\ Chk(EnumOK(Ev)) /\ named' = [named EXCEPT ![Ev.k] = @ \cup {<<Ev.s, Ev.i>>}] /\ UNCHANGED codes
     \/ Is("noname") /\ Chk(\A p \in named[Ev.k] : p[1] # Ev.s) /\ Ev.back = (IF Ev.k = "time" THEN "UNK" ELSE "Unknown") /\ UNCHANGED <<named, codes>>
     \/ Is("sat") /\ Chk(SatOK(Ev)) /\ UNCHANGED <<named, codes>>
     \/ Is("parse") /\ Chk(ParseOK(Ev)) /\ UNCHANGED <<named, codes>>
     \/ Is("blank") /\ Ev.n = "GPS" /\ Ev.id = -1 /\ UNCHANGED <<named, codes>>
     \/ Is("ord") /\ Chk(CmpOK(Ev, SatLt(Ev.a, Ev.b), Ev.a = Ev.b)) /\ UNCHANGED <<named, codes>>
     \/ Is("satvalid") /\ Chk(Ev.v = SatValid(Ev.n, Ev.id)) /\ UNCHANGED <<named, codes>>
     \/ Is("obs") /\ Chk(CodeOK(Ev)) /\ Chk(Ev.valid => CodesOK(Ev))
        /\ codes' = (IF Ev.valid THEN codes \cup {<<Ev.s, Ev.w304, <<Ev.type, Ev.band, Ev.code>>>>} ELSE codes) /\ UNCHANGED named
     \/ Is("pseudo") /\ Chk(PseudoOK(Ev)) /\ UNCHANGED <<named, codes>>
     \/ Is("pair") /\ Chk(PairOK(Ev)) /\ UNCHANGED <<named, codes>>
     \/ Is("nav") /\ Chk(Ev.v = NavOf(Ev.n, Ev.id, Ev.b, Ev.c)) /\ UNCHANGED <<named, codes>>
TSpec == TInit /\ [][TNext]_<<l, named, codes>>
=============================================================================
