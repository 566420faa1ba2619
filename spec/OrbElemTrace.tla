---------------------------- MODULE OrbElemTrace ----------------------------
EXTENDS OrbElem, TraceBase
VARIABLES tabs, sys, healthy, cutlim, dead
BIGT == 2147483646
v == <<tabs, sys, healthy, cutlim, dead>>
TInit == l = 1 /\ tabs = <<>> /\ sys = 0 /\ healthy = TRUE /\ cutlim = FALSE /\ dead = FALSE
Sats == DOMAIN tabs
Tab(s) == IF s \in Sats THEN tabs[s] ELSE <<>>
Size(S) == LET RECURSIVE F(_)
               F(X) == IF X = {} THEN 0 ELSE LET s == CHOOSE s \in X : TRUE IN Len(tabs[s]) + F(X \ {s}) IN F(S)
With(s, tb) == [ q \in Sats \cup {s} |-> IF q = s THEN tb ELSE tabs[q] ]
Ext(S) == UNION { { tabs[s][i] : i \in DOMAIN tabs[s] } : s \in S }
Lo(S) == CHOOSE b \in { r.b : r \in Ext(S) } : \A r \in Ext(S) : b <= r.b
Hi(S) == CHOOSE e \in { r.e : r \in Ext(S) } : \A r \in Ext(S) : e >= r.e
Rec(r) == [k |-> r.b, toe |-> r.toe, toc |-> r.toc, b |-> r.b, e |-> r.e, x |-> r.b, fit |-> r.fit, id |-> r.id, h |-> r.h]
\* the first set stored fixes the satellite system
AddOK == LET y == IF sys = 0 THEN Ev.s \div 100 ELSE sys
             q == AddElem(Tab(Ev.s), Rec(Ev.r))
         IN /\ sys' = y
            /\ IF Ev.s \div 100 # y THEN Ev.x = "InvalidParameter" /\ ~Ev.added /\ UNCHANGED tabs
               ELSE /\ Ev.x = IF q[1] = "bad" THEN "InvalidParameter" ELSE "ok"
                    /\ Ev.added = (q[1] = "new")
                    /\ tabs' = With(Ev.s, q[2])
Healthy(s, id) == \E i \in DOMAIN Tab(s) : Tab(s)[i].id = id /\ Tab(s)[i].h
XvtOK == \E id \in User(Tab(Ev.s), Ev.t) :
   /\ Ev.cid = id
   /\ Ev.ch = IF id = 0 THEN "Unavailable" ELSE IF Healthy(Ev.s, id) THEN "Healthy" ELSE "Unhealthy"
   /\ Ev.sh = Ev.ch
   /\ IF id = 0 \/ (healthy /\ ~Healthy(Ev.s, id)) THEN Ev.x = "InvalidRequest" ELSE Ev.x = "ok" /\ Ev.id = id
FindOK == LET S == IF Ev.m = "user" THEN User(Tab(Ev.s), Ev.t) ELSE Nearest(Tab(Ev.s), Ev.t)
          IN \E id \in S : IF id = 0 THEN Ev.x = "InvalidRequest" ELSE Ev.x = "ok" /\ Ev.id = id
ToeOK == LET S == AtToe(Tab(Ev.s), Ev.t) IN IF S = {} \/ ~Ev.own THEN Ev.x = "InvalidRequest" ELSE Ev.x = "ok" /\ Ev.id \in S
Ids(tb) == [ i \in DOMAIN tb |-> tb[i].id ]
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : \A q \in S : s <= q IN Ids(tabs[s]) \o Cat(S \ {s})
StateOK ==
  /\ Ev.size = Size(Sats)
  /\ Len(Ev.sats) = Cardinality(Sats) /\ (\A i \in DOMAIN Ev.sats : Ev.sats[i] \in Sats) /\ Ev.list = Ev.sats
  /\ \A i \in DOMAIN Ev.tab : LET tb == tabs[Ev.sats[i]] IN
       Ev.tab[i] = [ j \in DOMAIN tb |-> <<tb[j].k, tb[j].b, tb[j].e, tb[j].id>> ]
  /\ ~cutlim => Ev.all = IF Ext(Sats) = {} THEN <<BIGT, -BIGT>> ELSE <<Lo(Sats), Hi(Sats)>>
  /\ Ev.n = Size(Sats) /\ Ev.ids = Cat(Sats)
Step ==
  \/ Is("add") /\ AddOK /\ UNCHANGED <<healthy, cutlim, dead>>
  \/ Is("find") /\ FindOK /\ UNCHANGED v
  \/ Is("toe") /\ ToeOK /\ UNCHANGED v
  \/ Is("xvt") /\ XvtOK /\ UNCHANGED v
  \/ Is("state") /\ StateOK /\ UNCHANGED v
  \/ Is("has") /\ Ev.sat = (Ev.s \in Sats) /\ UNCHANGED v
  \/ Is("map") /\ Ev.x = (IF Ev.s \in Sats THEN "ok" ELSE "InvalidRequest") /\ UNCHANGED v
  \/ Is("sys") /\ sys = 0 /\ sys' = Ev.y /\ UNCHANGED <<tabs, healthy, cutlim, dead>>
  \/ Is("edit") /\ tabs' = [ s \in Sats |-> Edit(tabs[s], Ev.lo, Ev.hi) ] /\ cutlim' = TRUE /\ UNCHANGED <<sys, healthy, dead>>
  \/ Is("clear") /\ tabs' = <<>> /\ cutlim' = FALSE /\ UNCHANGED <<sys, healthy, dead>>
  \/ Is("only") /\ healthy' = Ev.on /\ UNCHANGED <<tabs, sys, cutlim, dead>>
  \/ /\ Is("rat")
     /\ IF sys # 1 THEN Ev.x = "InvalidRequest" /\ UNCHANGED v
        ELSE /\ Ev.x = "ok"
             /\ IF \E s \in Sats : Clash2(tabs[s]) THEN dead' = TRUE /\ UNCHANGED tabs
                ELSE tabs' = [ s \in Sats |-> Rational2(tabs[s]) ] /\ UNCHANGED dead
             /\ cutlim' = FALSE /\ UNCHANGED <<sys, healthy>>
TNext ==
  /\ More /\ l' = l + 1
  /\ IF Is("new") THEN tabs' = <<>> /\ sys' = 0 /\ healthy' = TRUE /\ cutlim' = FALSE /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED v ELSE Step
TSpec == TInit /\ [][TNext]_<<v, l>>
Ordered == \A s \in Sats : dead \/ \A i \in 1..(Len(tabs[s])-1) : tabs[s][i].k < tabs[s][i+1].k
=============================================================================
