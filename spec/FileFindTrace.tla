----------------------------- MODULE FileFindTrace ---------------------------
(* Specifications, the names they give, lists of names put in order, and      *)
(* trees of real files that are searched.                                     *)
EXTENDS FileFind, TraceBase
VARIABLES sp, tr
Set(s) == {s[i] : i \in 1..Len(s)}
Pairs(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]

TInit == l = 1 /\ sp = <<>> /\ tr = {}
New == Is("new") /\ sp' = <<>> /\ tr' = {}
\* a specification takes the place of the one before
SetSpec ==
  /\ Is("spec") /\ sp' = Ev.sp /\ tr' = tr
  /\ Chk(LET lv == Flat(Ev.sp)  K == Kinds(lv) IN
       /\ Ev.str = SpecText(Ev.sp)
       /\ Ev.search = Search(lv)
       /\ Set(Ev.has) = K
       /\ Ev.ht = (K \cap TimeKinds # {}) /\ Ev.hn = (K \ TimeKinds # {}))
NameIt ==
  /\ Is("name") /\ UNCHANGED <<sp, tr>>
  /\ Chk(LET lv == Flat(sp) vs == Pairs(Ev.vs) IN
       /\ Ev.out = Name(lv, vs, Ev.t)
       /\ {x[1] : x \in Set(Ev.fld)} = Kinds(lv)
       /\ \A x \in Set(Ev.fld) : x[2] = FirstOf(lv, Ev.out, x[1])
       /\ (Kinds(lv) \cap TimeKinds # {} /\ (\A i \in 1..Len(lv) : IsFld(lv[i]) => lv[i].w # 0) => Ev.at = TimeIn(lv, Ev.out)))
Sort ==
  /\ Is("sort") /\ UNCHANGED <<sp, tr>>
  /\ Chk(Ev.out = SortList(Flat(sp), Ev.in, Ev.dir))
Tree == Is("tree") /\ sp' = sp /\ tr' = Set(Ev.files)
Found ==
  /\ Is("find") /\ UNCHANGED <<sp, tr>>
  /\ Chk(LET F == Find(tr, sp, Ev.from, Ev.to, Ev.filt) IN Ev.err = "ok" /\ Set(Ev.out) = F /\ Len(Ev.out) = Cardinality(F))
FoundText ==
  /\ Is("findx") /\ UNCHANGED <<sp, tr>>
  /\ Chk(LET F == Find(tr, WithText(sp, Ev.text, Ev.sel), Ev.from, Ev.to, <<>>) IN Ev.err = "ok" /\ Set(Ev.out) = F /\ Len(Ev.out) = Cardinality(F))
Hunted ==
  /\ Is("hunt") /\ UNCHANGED <<sp, tr>>
  /\ Chk(
     IF Lt(Ev.to, Ev.from) \/ \E i \in 1..Len(Ev.filt) : Ev.filt[i][1] \notin SpecKinds(sp) THEN Ev.err = "FileHunterException"
     ELSE LET F == Hunt(tr, sp, Ev.from, Ev.to, Ev.chunk, Ev.filt)  last == sp[Len(sp)]  n == Len(Ev.out) IN
       /\ Ev.err = "ok" /\ Set(Ev.out) = F /\ n = Cardinality(F)
       /\ \A i \in 1..n-1 : ~Before(last, Path(Ev.out[i + 1]), Path(Ev.out[i]), Ev.dir))
TNext == More /\ l' = l + 1 /\ (New \/ SetSpec \/ NameIt \/ Sort \/ Tree \/ Found \/ FoundText \/ Hunted)
TSpec == TInit /\ [][TNext]_<<l, sp, tr>>
=============================================================================
