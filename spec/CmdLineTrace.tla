---------------------------- MODULE CmdLineTrace -----------------------------
EXTENDS CmdLine, TraceBase
VARIABLE os      \* the options declared so far
TInit == l = 1 /\ os = <<>>

Got(e, j) == [i \in 1..Len(e.r[j].v) |-> <<e.r[j].o[i], e.r[j].v[i]>>]
ParseOK(e) ==
  IF ~SetOK(os) THEN e.x = "InvalidParameter"
  ELSE LET m == Parse(os, e.ws) IN
    /\ e.x = "ok" /\ e.err = Errors(os, m) /\ e.has = (Errors(os, m) > 0)
    /\ \A j \in 1..Len(os) :
         LET r == e.r[j] IN
         /\ r.c = Count(os, m.got, j)
         /\ (Real(os[j]) \/ os[j].k = "rest") =>
              /\ r.v = (IF os[j].a \/ os[j].k = "rest" THEN [i \in 1..Len(m.got[j]) |-> m.got[j][i][2]] ELSE <<>>)
              /\ r.o = [i \in 1..Len(m.got[j]) |-> m.got[j][i][1]]
              /\ r.last = (IF m.got[j] = <<>> THEN 0 ELSE m.got[j][Len(m.got[j])][1])
         /\ os[j].k = "nof" => r.w = Which(os, m.got, j)
         /\ os[j].k \in {"oneof", "mutex"} => r.w = (LET w == Which(os, m.got, j) IN IF w = <<>> THEN w ELSE <<w[1]>>)
LineOK(e) ==
  LET d == e.d IN
  IF ~DeclOK(d) THEN e.x = "ok" /\ e.ret = -3
  ELSE LET p == Process(d, e.ws) IN
    IF p.bad THEN e.x # "ok"
    ELSE /\ e.x = "ok" /\ e.ret = p.ret /\ e.help = p.help /\ e.count = p.count /\ e.unrec = p.unrec /\ e.errs = p.err /\ e.held = p.held
         /\ (p.ret # 1 => e.bad = (p.err > 0))
TNext ==
  /\ More
  /\ l' = l + 1
  /\ \/ Is("new") /\ os' = <<>>
     \/ Is("opt") /\ Chk(Ev.x = (IF OptionOK(Ev.o) THEN "ok" ELSE "InvalidParameter"))
        /\ os' = (IF OptionOK(Ev.o) THEN Append(os, Ev.o) ELSE os)
     \/ Is("parse") /\ Chk(ParseOK(Ev)) /\ UNCHANGED os
     \/ Is("line") /\ Chk(LineOK(Ev)) /\ UNCHANGED os
TSpec == TInit /\ [][TNext]_<<l, os>>
=============================================================================
