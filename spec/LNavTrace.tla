----------------------------- MODULE LNavTrace -----------------------------
EXTENDS LNav, TraceBase
VARIABLES eph, alm
TInit == l = 1 /\ eph = EmptyEph /\ alm = EmptyAlm

\* a logged number is the list of its readings, one for each exponent of pi that gives a short mantissa
IsNum(lst, allowed) == \E i \in 1..Len(lst) : lst[i] \in allowed
Bool(x) == x = TRUE

ParOK(e) == e.r = Parity(e.w, e.p, e.up)
FixOK(e) == e.r = Fixed(e.w, e.p, e.nib, e.up)
CheckOK(e) == /\ e.r = SubframeOK(e.sf, e.up) /\ e.rv = e.r
              /\ e.up => e.old = e.r
PatOK(e) == /\ e.r = Pattern(e.sf) /\ e.rl = e.r
            /\ e.id = SfId(e.sf[2]) /\ e.tow = Tow(e.sf[2]) /\ e.how = HowTime(e.sf[2])
ConvOK(e) ==
  LET pat == Pattern(e.sf)
  IN  /\ e.r = (pat # 0) /\ e.rl = e.r
      /\ pat # 0 => /\ Len(e.out) >= Len(Layout[pat])
                    /\ \A k \in 1..Len(Layout[pat]) : IsNum(e.out[k], Outs(e.sf, pat, e.week, k))
XbitOK(e) == e.r \in Nearest(e.full, e.part, e.mod) /\ e.rd = e.r
S2pOK(e) == IF PagesOf(e.sv) = {} THEN ~e.r ELSE e.r /\ <<e.sf, e.page>> \in PagesOf(e.sv)
P2sOK(e) == e.r = (SvOf(e.sf, e.page) # 0) /\ (e.r => e.sv = SvOf(e.sf, e.page))
ZOK(e) == LET t == e.z \div 4 IN e.r /\ e.sf = SfOf(t) /\ e.page = (IF SfOf(t) < 4 THEN 0 ELSE PageOf(t))
NmctOK(e) ==
  IF SfId(e.sf[2]) # 2 THEN e.x # "ok"
  ELSE /\ e.x = "ok" /\ e.aodo = Aodo(e.sf) /\ e.ok = (Aodo(e.sf) # 27900)
       /\ e.tot = NmctTot(e.sf, e.week) /\ e.toe = NmctToe(e.sf, e.week) /\ e.tnmct = Nmct(e.sf, e.week)

-----------------------------------------------------------------------------
EphPutOK(e) == LET i == SfId(e.sf[2]) IN IF i \in 1..3 THEN e.x = "ok" /\ e.r ELSE e.x # "ok"
IncSf(k, words, sow) == << 0, (((30 * (sow \div 30) + 6 * k) \div 6) * Pow2[13]) + 2048 + 256 * k >> \o words
EphInc(e) == [EmptyEph EXCEPT !.have = {1, 2, 3}, !.sf = [k \in 1..3 |-> IncSf(k, e.s[k], e.sow)],
                              !.week = e.week, !.prn = e.prn, !.track = e.track, !.lead = FALSE]
\* before the set is complete a parameter of a stored subframe may be withheld; one of a subframe not stored always is
Scalars == {"tlm1", "how1", "as1", "code", "health", "l2p", "tgd", "tlm2", "how2", "as2", "fiti", "aodo", "tlm3", "how3", "as3"}
EphGetOK(e) ==
  /\ \A k \in 1..3 : e.have[k] = (k \in eph.have)
  /\ e.set = (EphSet(eph) /\ Iodc(eph) % 256 = Iode(eph))
  /\ \A k \in 1..Len(EphField) :
       LET f == EphField[k]
           v == e.v[f[1]]
       IN  IF f[2] \notin eph.have THEN v = <<>>
           ELSE \/ f[1] \in LeadNames /\ ~eph.lead
                \/ v = <<>> /\ ~EphSet(eph)
                \/ v # <<>> /\ IsNum(v, {FieldNum(eph.sf[f[2]], Layout[f[2]][f[3]])})
  /\ IF 1 \notin eph.have THEN e.iodc = -1 ELSE e.iodc = Iodc(eph) \/ (e.iodc = -1 /\ ~EphSet(eph))
  /\ IF 2 \notin eph.have THEN e.iode = -1 ELSE e.iode = Iode(eph) \/ (e.iode = -1 /\ ~EphSet(eph))
  /\ EphSet(eph) =>
       /\ e.prn = eph.prn /\ e.track = eph.track
       /\ e.week \in EphWeeks(eph)
       /\ e.toe = ToeTime(eph, e.week) /\ e.toc = TocTime(eph, e.week)
       /\ e.begin = AddSec(e.toe, -FitSec(eph)) /\ e.end = AddSec(e.toe, FitSec(eph))
       /\ HowT(eph, 1) \div 30 = HowT(eph, 2) \div 30 /\ HowT(eph, 1) \div 30 = HowT(eph, 3) \div 30
            => e.tx = <<e.week, 30 * (HowT(eph, 1) \div 30)>>
-----------------------------------------------------------------------------
AlmPutOK(e) ==
  IF Pattern(e.sf) = 0 THEN e.x = "ok" /\ ~e.r
  ELSE IF ~AlmPage(e.sf) THEN e.x # "ok"
  ELSE e.x = "ok" /\ e.r
OrbOK(e) ==
  LET x == alm.orb[e.prn]
  IN  IF x = <<>> THEN e.is = FALSE /\ e.x # "ok"
      ELSE /\ e.is = TRUE /\ e.x = "ok"
           /\ \A k \in 1..Len(AlmField) : IsNum(e.v[AlmField[k][1]], {FieldNum(x.sf, Layout[4][AlmField[k][2]])})
           /\ e.toa = ToaTime(x) /\ e.tx = XmitTime(x) /\ e.week = XmitTime(x)[1]
GenOK(e) ==
  /\ \A p \in 1..32 : e.h6[p] = Health6(alm, p) /\ e.cfg[p] = Config(alm, p)
  /\ alm.p51 # <<>> =>
       /\ e.week \in Nearest(alm.p51.week, ToNat(FieldBits(alm.p51.sf, Layout[5][8])), 256)
       /\ e.toa = 4096 * ToNat(FieldBits(alm.p51.sf, U(69, 8)))
  /\ IF alm.p56 = <<>> THEN e.x # "ok"
     ELSE /\ e.x = "ok"
          /\ \A k \in 1..Len(UtcField) : IsNum(e.v[UtcField[k][1]], Outs(alm.p56.sf, 8, alm.p56.week, UtcField[k][2]))

TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN eph' = EmptyEph /\ alm' = EmptyAlm
     ELSE IF Is("eput") THEN /\ Chk(EphPutOK(Ev)) /\ UNCHANGED alm
                             /\ eph' = IF Ev.x = "ok" THEN EphPut(eph, Ev.sf, Ev.week, Ev.prn, Ev.track) ELSE eph
     ELSE IF Is("einc") THEN /\ Chk(Ev.x = "ok" /\ Ev.r) /\ UNCHANGED alm /\ eph' = EphInc(Ev)
     ELSE IF Is("aput") THEN /\ Chk(AlmPutOK(Ev)) /\ UNCHANGED eph
                             /\ alm' = IF Ev.x = "ok" /\ Ev.r THEN AlmPut(alm, Ev.sf, Ev.week) ELSE alm
     ELSE /\ UNCHANGED <<eph, alm>>
          /\ Chk(CASE Is("par") -> ParOK(Ev)
                   [] Is("fix") -> FixOK(Ev)
                   [] Is("chk") -> CheckOK(Ev)
                   [] Is("pat") -> PatOK(Ev)
                   [] Is("conv") -> ConvOK(Ev)
                   [] Is("xbit") -> XbitOK(Ev)
                   [] Is("s2p") -> S2pOK(Ev)
                   [] Is("p2s") -> P2sOK(Ev)
                   [] Is("z") -> ZOK(Ev)
                   [] Is("nmct") -> NmctOK(Ev)
                   [] Is("eget") -> EphGetOK(Ev)
                   [] Is("orb") -> OrbOK(Ev)
                   [] Is("gen") -> GenOK(Ev)
                   [] OTHER -> FALSE)
TSpec == TInit /\ [][TNext]_<<l, eph, alm>>
=============================================================================
