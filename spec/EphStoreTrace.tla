--------------------------- MODULE EphStoreTrace ---------------------------
EXTENDS EphStore, TraceBase
VARIABLES tabs,    \* satellite -> table
          near, healthy, cutlim, dead, kind
BIGT == 2147483646
v == <<tabs, near, healthy, cutlim, dead, kind>>
TInit == l = 1 /\ tabs = <<>> /\ near = FALSE /\ healthy = FALSE /\ cutlim = FALSE /\ dead = FALSE /\ kind = ""
\* satellites are numbers 100*system + id
Sats == DOMAIN tabs
Tab(s) == IF s \in Sats THEN tabs[s] ELSE <<>>
Sys(s) == s \div 100
Size(S) == LET RECURSIVE F(_)
               F(X) == IF X = {} THEN 0 ELSE LET s == CHOOSE s \in X : TRUE IN Len(tabs[s]) + F(X \ {s}) IN F(S)
With(s, tb) == [ q \in Sats \cup {s} |-> IF q = s THEN tb ELSE tabs[q] ]
Ext(S) == UNION { { tabs[s][i] : i \in DOMAIN tabs[s] } : s \in S }
Lo(S) == CHOOSE b \in { r.b : r \in Ext(S) } : \A r \in Ext(S) : b <= r.b
Hi(S) == CHOOSE e \in { r.e : r \in Ext(S) } : \A r \in Ext(S) : e >= r.e
Rec(r) == [k |-> IF near THEN r.toe ELSE r.b, toe |-> r.toe, toc |-> r.toc, b |-> r.b, e |-> r.e, x |-> r.x, fit |-> r.fit, id |-> r.id, h |-> r.h]
AddOK == LET q == Add(Tab(Ev.s), Rec(Ev.r)) IN
  /\ Ev.x = IF q[1] = "bad" THEN "InvalidParameter" ELSE "ok"
  /\ Ev.added = (q[1] = "new")
  /\ tabs' = With(Ev.s, q[2])
\* no limit is promised between an edit and the next clear or rationalize
Find(s, t, m) == IF m = "user" \/ (m # "near" /\ ~near) THEN User(Tab(s), t) ELSE Near(Tab(s), t)
Healthy(s, id) == \E i \in DOMAIN Tab(s) : Tab(s)[i].id = id /\ Tab(s)[i].h
XvtOK == \E id \in Find(Ev.s, Ev.t, "cur") :
   /\ Ev.cid = id
   /\ Ev.ch = IF id = 0 THEN "Unavailable" ELSE IF Healthy(Ev.s, id) THEN "Healthy" ELSE "Unhealthy"
   /\ Ev.sh = Ev.ch
   /\ IF id = 0 \/ (healthy /\ ~Healthy(Ev.s, id)) THEN Ev.x = "InvalidRequest"
      ELSE Ev.x = "ok" /\ Ev.id = id /\ Ev.h = Ev.ch
FindOK == \E id \in Find(Ev.s, Ev.t, Ev.m) :
   IF Ev.m = "eph" THEN IF id = 0 \/ ~Ev.own THEN Ev.x = "InvalidRequest" ELSE Ev.x = "ok" /\ Ev.id = id
   ELSE Ev.x = "ok" /\ Ev.id = id
\* ascending satellites (system order, then id), each in key order
Ids(tb) == [ i \in DOMAIN tb |-> tb[i].id ]
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : \A q \in S : s <= q IN Ids(tabs[s]) \o Cat(S \ {s})
Sel(y, n) == { s \in Sats : (y = 0 \/ Sys(s) = y) /\ (y = 0 \/ n = -1 \/ s % 100 = n) }
StateOK ==
  /\ Ev.size = Size(Sats)
  /\ Len(Ev.sats) = Cardinality(Sats) /\ \A i \in DOMAIN Ev.sats : Ev.sats[i] \in Sats
  /\ \A i \in DOMAIN Ev.tab : LET tb == tabs[Ev.sats[i]] IN
       Ev.tab[i] = [ j \in DOMAIN tb |-> <<tb[j].k, tb[j].b, tb[j].e, tb[j].id>> ]
  /\ \A i \in DOMAIN Ev.lim : LET tb == tabs[Ev.sats[i]] IN
       tb # <<>> => Ev.lim[i] = <<tb[1].k, tb[Len(tb)].k>>
  /\ ~cutlim => Ev.all = IF Ext(Sats) = {} THEN <<BIGT, -BIGT>> ELSE <<Lo(Sats), Hi(Sats)>>
Step ==
  \/ Is("add") /\ AddOK /\ UNCHANGED <<near, healthy, cutlim, dead, kind>>
  \/ Is("find") /\ FindOK /\ UNCHANGED v
  \/ Is("xvt") /\ XvtOK /\ UNCHANGED v
  \/ Is("state") /\ StateOK /\ UNCHANGED v
  \/ Is("count") /\ Ev.n = Size({ s \in Sats : IF Ev.id = -1 THEN Ev.y = 9 \/ Sys(s) = Ev.y ELSE s = 100 * Ev.y + Ev.id }) /\ UNCHANGED v
  \/ Is("list") /\ Ev.n = Len(Ev.ids) /\ Ev.ids = Cat(Sel(Ev.y, Ev.id)) /\ UNCHANGED v
  \/ Is("has") /\ Ev.sat = (Ev.s \in Sats) /\ Ev.at = (Ev.t \in Keys(Tab(Ev.s))) /\ UNCHANGED v
  \/ Is("edit") /\ tabs' = [ s \in Sats |-> Edit(tabs[s], Ev.lo, Ev.hi) ] /\ cutlim' = TRUE /\ UNCHANGED <<near, healthy, dead, kind>>
  \/ Is("clear") /\ tabs' = <<>> /\ cutlim' = FALSE /\ UNCHANGED <<near, healthy, dead, kind>>
  \/ Is("only") /\ healthy' = Ev.on /\ UNCHANGED <<tabs, near, cutlim, dead, kind>>
  \/ /\ Is("search") /\ Ev.ok = (Size(Sats) = 0)
     /\ near' = IF Ev.ok THEN Ev.near ELSE near
     /\ UNCHANGED <<tabs, healthy, cutlim, dead, kind>>
  \/ /\ Is("rat")
     /\ IF \E s \in Sats : Clash(tabs[s]) THEN dead' = TRUE /\ UNCHANGED tabs
        ELSE tabs' = [ s \in Sats |-> Rational(tabs[s]) ] /\ UNCHANGED dead
     /\ cutlim' = FALSE /\ UNCHANGED <<near, healthy, kind>>
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN tabs' = <<>> /\ near' = FALSE /\ healthy' = FALSE /\ cutlim' = FALSE /\ dead' = FALSE /\ kind' = Ev.kind
     ELSE IF dead THEN UNCHANGED v ELSE Step
TSpec == TInit /\ [][TNext]_<<v, l>>
Ordered == \A s \in Sats : dead \/ \A i \in 1..(Len(tabs[s])-1) : tabs[s][i].k < tabs[s][i+1].k
=============================================================================
