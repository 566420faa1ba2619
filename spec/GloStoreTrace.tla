--------------------------- MODULE GloStoreTrace ---------------------------
EXTENDS GloStore, TraceBase
VARIABLES tabs, only
v == <<tabs, only>>
TInit == l = 1 /\ tabs = <<>> /\ only = FALSE
Sats == DOMAIN tabs
Tab(s) == IF s \in Sats THEN tabs[s] ELSE <<>>
With(s, tb) == [ q \in Sats \cup {s} |-> IF q = s THEN tb ELSE tabs[q] ]
AddOK == LET r == [t |-> Ev.t, id |-> Ev.id, h |-> Ev.h] IN
  /\ Ev.ok = Admits(only, r)
  /\ tabs' = IF Ev.ok THEN With(Ev.s, Put(Tab(Ev.s), r)) ELSE tabs
H(s, id) == IF \E i \in DOMAIN Tab(s) : Tab(s)[i].id = id /\ Tab(s)[i].h THEN "Healthy" ELSE "Unhealthy"
Is1(id, x, got) == IF id = 0 THEN x = "InvalidRequest" ELSE x = "ok" /\ got = id
Ids(s, t) == {Pick(Tab(s), t)} \cup IF AtEdge(Tab(s), t)
               THEN {0} \cup { Tab(s)[i].id : i \in { j \in DOMAIN Tab(s) : Tab(s)[j].t + Half = t } } ELSE {}
XvtOK == \E id \in (IF Ev.own THEN Ids(Ev.s, Ev.t) ELSE {0}) :
   /\ Is1(id, Ev.x, Ev.id) /\ Ev.cid = id
   /\ Ev.ch = IF id = 0 THEN "Unavailable" ELSE H(Ev.s, id)
   /\ Ev.sh = Ev.ch
FindOK == \E id \in (IF Ev.own THEN Ids(Ev.s, Ev.t) ELSE {0}) : Is1(id, Ev.x, Ev.id)
Times == UNION { { tabs[s][i].t : i \in DOMAIN tabs[s] } : s \in Sats }
Lo(S) == CHOOSE a \in S : \A b \in S : a <= b
Hi(S) == CHOOSE a \in S : \A b \in S : a >= b
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : \A q \in S : s <= q IN
            [ i \in DOMAIN tabs[s] |-> tabs[s][i].id ] \o Cat(S \ {s})
StateOK ==
  /\ Ev.size = Cardinality(Sats)
  /\ Len(Ev.sats) = Cardinality(Sats) /\ \A i \in DOMAIN Ev.sats : Ev.sats[i] \in Sats
  /\ \A i \in DOMAIN Ev.sats : Ev.lim[i] = <<tabs[Ev.sats[i]][1].t, tabs[Ev.sats[i]][Len(tabs[Ev.sats[i]])].t>>
  /\ Ev.ids = Cat(Sats) /\ Ev.n = Len(Ev.ids)
  /\ IF Sats = {} THEN Ev.x = "InvalidRequest" ELSE Ev.x = "ok" /\ Ev.all = <<Lo(Times), Hi(Times)>>
EditOK == LET f == [ s \in Sats |-> Edit(tabs[s], Ev.lo, Ev.hi) ]
          IN tabs' = [ s \in { q \in Sats : f[q] # <<>> } |-> f[s] ]
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ tabs' = <<>> /\ only' = Ev.only
     \/ Is("add") /\ AddOK /\ UNCHANGED only
     \/ Is("xvt") /\ XvtOK /\ UNCHANGED v
     \/ Is("find") /\ FindOK /\ UNCHANGED v
     \/ Is("state") /\ StateOK /\ UNCHANGED v
     \/ Is("has") /\ Ev.sat = (Ev.s \in Sats) /\ UNCHANGED v
     \/ Is("edit") /\ EditOK /\ UNCHANGED only
     \/ Is("clear") /\ tabs' = <<>> /\ UNCHANGED only
     \/ Is("only") /\ only' = Ev.on /\ UNCHANGED tabs
TSpec == TInit /\ [][TNext]_<<v, l>>
Ordered == \A s \in Sats : Tab(s) # <<>> /\ \A i \in 1..(Len(Tab(s))-1) : Tab(s)[i].t < Tab(s)[i+1].t
=============================================================================
