----------------------------- MODULE EphConvMC -----------------------------
(* Every record over a set of times close to and far from a week rollover.    *)
EXTENDS EphConv, FiniteSets, TLC
VARIABLE r
S == {0, 16, 3600, 7200, 7184, 604784, 604799, 601200, 597600, 302400}
Init == \E sys \in {"G", "E", "C", "J"}, v \in {2, 3}, toc \in S, toe \in S, d \in {-14400, -7230, -7200, -30, -6, 0, 30, 3606, 301000},
           fit \in {0, 1, 4, 6}, iodc \in {10, 240, 1023}, acc \in {240, 241, 614401} :
          /\ sys # "G" => v = 3 /\ iodc = 10
          /\ sys \notin {"G", "J"} => fit = 0
          /\ LET t == <<1000, toc>> IN
             /\ LET e == Near(toe, t) IN LET x == AddS(t, d) IN
                /\ LeW(AddS(t, -4000), e) /\ LeW(e, AddS(t, 4000))
                /\ r = [sys |-> sys, v |-> v, toc |-> t, toe |-> toe, tx |-> x, fit |-> fit, iodc |-> iodc, acc |-> acc, health |-> 0, dsrc |-> 1, prn |-> 1]
Next == r' = Back(r) /\ r # Back(r)
Spec == Init /\ [][Next]_r
\* an orbit epoch is found within half a week of the clock epoch
NearOK == LeW(AddS(r.toc, -WEEK \div 2), Toe(r)) /\ LeW(Toe(r), AddS(r.toc, WEEK \div 2))
\* converting keeps the epochs; a second conversion changes nothing more
RoundTrip == Toe(Back(r)) = Toe(r) /\ Back(r).toc = r.toc
Settles == r.v = 3 => /\ EphOf(Back(r)) = EphOf(r) \/ r.fit = 1 \/ r.sys = "G"
                      /\ [EphOf(Back(r)) EXCEPT !.acc = 0] = [EphOf(r) EXCEPT !.acc = 0]
\* the interval of validity is not empty, and an even GPS epoch lies inside it
NotEmpty == (r.toe = r.toc[2] /\ LeW(r.tx, AddS(r.toc, 30))) => LeW(Begin(r), End(r))
EvenInside == (r.sys = "G" /\ r.toc[2] % 7200 = 0) => ValidAt(r, r.toc) /\ Begin(r) = AddS(End(r), -Hours(r) * HOUR - (LET c == CeilTo(Toe(r), HOUR) IN (c[1] - r.toc[1]) * WEEK + c[2] - r.toc[2]))
\* validity moves with the record: the same record a day later is valid a day later
Shift == LET q == [r EXCEPT !.toc = AddS(@, 86400), !.toe = (@ + 86400) % WEEK, !.tx = AddS(@, 86400)]
         IN  Begin(q) = AddS(Begin(r), 86400) /\ End(q) = AddS(End(r), 86400) /\ Xmit(q) = AddS(Xmit(r), 86400)
=============================================================================
