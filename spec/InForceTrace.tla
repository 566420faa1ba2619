----------------------------- MODULE InForceTrace ----------------------------
EXTENDS InForce, TraceBase
VARIABLES wx, io, rows, md
vars == <<wx, io, rows, md>>
TInit == l = 1 /\ wx = {} /\ io = {} /\ rows = Assigned /\ md = Empty
New == Is("new") /\ wx' = {} /\ io' = {} /\ rows' = Assigned /\ md' = Empty
\* ---- weather
Wx(r) == [t |-> r.t, temp |-> r.temp, pres |-> r.pres, hum |-> r.hum, ok |-> r.ok]
Spans(S, e) == IF S = {} THEN ~e.any ELSE e.any /\ e.first = Earliest(S).t /\ e.last = Latest(S).t
WxAdd == Is("wxadd") /\ wx' = Put(wx, Wx(Ev.o)) /\ UNCHANGED <<io, rows, md>> /\ Chk(Ev.n = Cardinality(wx') /\ Spans(wx', Ev))
\* what was the youngest may have gone: the youngest there ever was is kept as the end
WxFlush == /\ Is("wxflush") /\ wx' = {x \in wx : x.t >= Ev.t} /\ UNCHANGED <<io, rows, md>>
           /\ Chk(Ev.n = Cardinality(wx') /\ Spans(wx', Ev))
WxRecent == /\ Is("wxrecent") /\ UNCHANGED vars
            /\ Chk(IF wx = {} THEN ~Ev.r.ok ELSE Is64(Recent(wx, Ev.t), Ev.r))
WxGet == Is("wxget") /\ UNCHANGED vars /\ Chk(WxOK(wx, Ev.t, Ev.iv, Ev.interp, Ev.x, Ev.r))
\* ---- ionosphere
Add == /\ Is("ionoadd") /\ io' = IonoAdd(io, Ev.t, Ev.m, Ev.valid) /\ UNCHANGED <<wx, rows, md>>
       /\ Chk(Ev.ret = IonoTakes(io, Ev.t, Ev.m, Ev.valid))
Edit == Is("ionoedit") /\ io' = IonoEdit(io, Ev.a, Ev.b) /\ UNCHANGED <<wx, rows, md>>
Ask == /\ Is("iono") /\ UNCHANGED vars
       /\ Chk(LET m == IonoAt(io, Ev.t) IN IF m = 0 THEN Ev.x = "NoIonoModelFound" ELSE Ev.x = "ok" /\ Ev.val = Ev.vals[m])
\* ---- numbers
Row == /\ Is("row") /\ rows' = Append(rows, <<Ev.r[1], Ev.r[2], Ev.r[3], Ev.r[4]>>) /\ UNCHANGED <<wx, io, md>>
Fine == Is("consistent") /\ UNCHANGED vars /\ Chk(Ev.yes = Consistent(rows))
Prn == /\ Is("prn") /\ UNCHANGED vars
       /\ Chk(LET s == PrnOf(SetOf(rows), Ev.svn, Ev.t) IN
              IF s = {} THEN Ev.x = "NoNAVSTARNumberFound" /\ ~Ev.av /\ ~Ev.act ELSE Ev.x = "ok" /\ Ev.av /\ Ev.act /\ Ev.prn \in s)
Svn == /\ Is("svn") /\ UNCHANGED vars
       /\ Chk(LET s == SvnOf(SetOf(rows), Ev.prn, Ev.t) IN
              IF s = {} THEN Ev.x = "NoNAVSTARNumberFound" /\ ~Ev.av ELSE Ev.x = "ok" /\ Ev.av /\ Ev.svn \in s)
Block == /\ Is("block") /\ UNCHANGED vars
         /\ Chk(LET b == BlockOf(Ev.svn) IN
                IF b = {} THEN Ev.x = "NoNAVSTARNumberFound" /\ ~Ev.av /\ Ev.text = "unknown"
                ELSE Ev.x = "ok" /\ Ev.av /\ Ev.text \in b)
\* ---- descriptions
LoadIt == /\ Is("load") /\ md' = Load(md, Ev.lines, 1) /\ UNCHANGED <<wx, io, rows>>
          /\ Chk(/\ Ev.ret = (AllFit(md, Ev.lines, 1) /\ ~Ev.missing)
                 /\ Ev.n = <<Len(md'.launch), Len(md'.norad), Len(md'.clock), Len(md'.sat)>>)
OneOf(S, e) == IF S = {} THEN ~e.ret ELSE e.ret /\ e.r \in S
Sat == /\ Is("sat") /\ UNCHANGED vars
       /\ Chk(/\ OneOf(ByPrn(md, Ev.sys, Ev.prn, Ev.t), Ev)
              /\ LET S == ByPrn(md, Ev.sys, Ev.prn, Ev.t) IN IF S = {} THEN ~Ev.got ELSE Ev.got /\ Ev.svn \in {x[2] : x \in S})
SatSvn == /\ Is("satsvn") /\ UNCHANGED vars
          /\ Chk(/\ OneOf(BySvn(md, Ev.sys, Ev.svn, Ev.t), Ev)
                 /\ LET S == BySvn(md, Ev.sys, Ev.svn, Ev.t) IN IF S = {} THEN ~Ev.got ELSE Ev.got /\ Ev.prn \in {x[3] : x \in S})
SatSlot == Is("satslot") /\ UNCHANGED vars /\ Chk(OneOf(BySlot(md, Ev.slot, Ev.chl, Ev.t), Ev))
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ WxAdd \/ WxFlush \/ WxRecent \/ WxGet \/ Add \/ Edit \/ Ask \/ Row \/ Fine \/ Prn \/ Svn \/ Block \/ LoadIt \/ Sat \/ SatSvn \/ SatSlot)
TSpec == TInit /\ [][TNext]_<<l, wx, io, rows, md>>
=============================================================================
