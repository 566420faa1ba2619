---------------------------- MODULE NavBitsTrace ----------------------------
EXTENDS NavBits, TraceBase
VARIABLES m      \* the messages held: content and metadata, by slot
Blank == [s |-> "", meta |-> [sat |-> 0, obs |-> 0, rx |-> 0, time |-> 0, nav |-> 0], ps |-> 0]
TInit == l = 1 /\ m = [o \in 1..4 |-> Blank]

\* writing: the message after the event, and whether the event may be what it says
AddVal(e) ==
  CASE e.op = "u"  -> Div(e.v, e.sc)
    [] e.op = "s"  -> SDiv(e.v, e.sc)
    [] e.op \in {"ud", "sd"} -> Units(e.v, e.k, e.p)
    [] e.op = "sc" -> e.v
Fits(e) == IF e.op \in {"u", "ud"} THEN FitsU(AddVal(e), e.n) ELSE FitsS(AddVal(e), e.n)
AddOK(e) == LET s == m[e.o].s IN
  IF Fits(e) THEN e.x = "ok" /\ e.c = s \o Field(AddVal(e), e.n)
  ELSE e.x = "InvalidParameter" /\ e.c = s
InsOK(e) == LET s == m[e.o].s IN
  IF Has(s, e.b, e.n) /\ FitsU(Div(e.v, e.sc), e.n)
  THEN e.x = "ok" /\ e.c = Over(s, e.b, Field(Div(e.v, e.sc), e.n))
  ELSE e.x = "InvalidParameter" /\ e.c = s
Starts(s, t) == Len(s) <= Len(t) /\ High(t, Len(s)) = s
TextOK(e) == LET s == m[e.o].s
                 cs == Text(e.codes, e.n) IN
  IF \A i \in 1..Len(cs) : TextCode(cs[i]) THEN e.x = "ok" /\ e.c = s \o Chars(cs)
  ELSE e.x = "InvalidParameter" /\ Starts(s, e.c) /\ Starts(e.c, s \o Chars(cs))
AppOK(e) == e.x = "ok" /\ e.c = m[e.o].s \o m[e.q].s
CopyBOK(e) == LET s == m[e.o].s
                  t == m[e.q].s IN
  IF Len(s) # Len(t) THEN e.x = "InvalidParameter" /\ e.c = s
  ELSE e.x = "ok" /\ e.c = CopyRange(s, t, e.b, e.to)
RECURSIVE Cat(_)
Cat(ws) == IF ws = <<>> THEN "" ELSE Head(ws) \o Cat(Tail(ws))
RawOK(e) == LET s == m[e.o].s IN
  IF 32 * Len(e.ws) >= e.n THEN e.x = "ok" /\ e.c = High(Cat(e.ws), e.n)
  ELSE e.x = "InvalidParameter"
-----------------------------------------------------------------------------
\* reading never changes a message
ReadVal(s, e) ==
  CASE e.op \in {"u", "ud"} -> Mul(AsU(s, e.parts), e.sc)
    [] e.op \in {"s", "sd", "sc"} -> Mul(AsS(s, e.parts), e.sc)
    [] e.op \in {"sm", "smd", "smc"} -> Mul(AsSM(s, e.parts[1][1], e.parts[1][2]), e.sc)
ReadOK(e) == LET s == m[e.o].s IN
  IF AllHave(s, e.parts) THEN e.x = "ok" /\ e.r = ReadVal(s, e) /\ e.exact
  ELSE e.x = "InvalidParameter"
BoolOK(e) == LET s == m[e.o].s IN
  IF Has(s, e.b, 1) THEN e.x = "ok" /\ e.r = (Bit(s, e.b + 1) = "1") ELSE e.x = "InvalidParameter"
StrOK(e) == LET s == m[e.o].s IN
  IF e.n = 0 THEN e.x = "ok" /\ e.codes = <<>>
  ELSE IF Has(s, e.b, 8 * e.n) THEN e.x = "ok" /\ Chars(e.codes) = Cut(s, e.b, 8 * e.n) /\ Len(e.codes) = e.n
  ELSE e.x = "InvalidParameter"
CmpOK(e) ==
  LET a == m[e.o]
      b == m[e.q] IN
  /\ e.x = "ok"
  /\ e.lt = Less(a.s, b.s) /\ e.gt = Less(b.s, a.s)
  /\ e.mb = MatchRange(a.s, b.s, e.b, e.to)
  /\ e.mm = MetaMatch(a.meta, b.meta, e.flags)
  /\ e.ma = (e.mm /\ e.mb)
  /\ e.eq = (a.s = b.s /\ a.meta = b.meta)
OutOK(e) == LET s == m[e.o].s IN
  /\ e.ws = HexWords(s, e.w) /\ e.lines = PerLine(Len(e.ws), e.per) /\ e.r = Len(s)
DumpOK(e) == e.ws = HexWords(m[e.o].s, 32)

Set(o, c) == m' = [m EXCEPT ![o].s = c]
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN m' = [o \in 1..4 |-> Blank]
     ELSE IF Is("mk") THEN /\ m' = [m EXCEPT ![Ev.o] = [s |-> "", meta |-> Ev.meta, ps |-> 0]]
                           /\ Ev.c = "" /\ Ev.len = 0 /\ Ev.got = Ev.meta
     ELSE IF Is("meta") THEN m' = [m EXCEPT ![Ev.o].meta = Ev.meta, ![Ev.o].ps = Ev.ps] /\ Ev.got = Ev.meta
     ELSE IF Is("cpy") THEN m' = [m EXCEPT ![Ev.o] = m[Ev.q]] /\ Ev.c = m[Ev.q].s /\ Ev.got = m[Ev.q].meta /\ Ev.ps = m[Ev.q].ps
     ELSE IF Is("add") THEN Chk(AddOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("ins") THEN Chk(InsOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("text") THEN Chk(TextOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("app") THEN Chk(AppOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("copyb") THEN Chk(CopyBOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("raw") THEN Chk(RawOK(Ev)) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("inv") THEN Ev.c = Flip(m[Ev.o].s) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("reset") THEN Ev.c = High(m[Ev.o].s, Ev.n) /\ Set(Ev.o, Ev.c)
     ELSE IF Is("trim") THEN Ev.c = m[Ev.o].s /\ Set(Ev.o, Ev.c)
     ELSE IF Is("clear") THEN Ev.c = "" /\ Set(Ev.o, Ev.c)
     ELSE IF Is("rd") THEN Chk(ReadOK(Ev)) /\ UNCHANGED m
     ELSE IF Is("bool") THEN Chk(BoolOK(Ev)) /\ UNCHANGED m
     ELSE IF Is("str") THEN Chk(StrOK(Ev)) /\ UNCHANGED m
     ELSE IF Is("cmp") THEN Chk(CmpOK(Ev)) /\ UNCHANGED m
     ELSE IF Is("out") THEN Chk(OutOK(Ev)) /\ UNCHANGED m
     ELSE Is("dump") /\ Chk(DumpOK(Ev)) /\ UNCHANGED m
TSpec == TInit /\ [][TNext]_<<l, m>>
=============================================================================
