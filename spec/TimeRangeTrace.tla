--------------------------- MODULE TimeRangeTrace ---------------------------
EXTENDS TimeRange, TraceBase
VARIABLES r        \* r[1..2]: the ranges under test
ALL == <<-1, 2*N - 1, TRUE, TRUE>>   \* the default range: all time
TInit == l = 1 /\ r = [i \in 1..2 |-> ALL]
\* contents afterwards, read back from the object: start, end, and membership of each point of the line
Mem(q) == [ i \in 1..(2*N+1) |-> InRange(q, i - 2) ]
Holds == /\ Ev.s = r'[Ev.i][1] /\ Ev.t = r'[Ev.i][2]
         /\ Ev.mem = Mem(r'[Ev.i])
SetOK == LET q == Ev.a IN
  IF Valid(q) THEN Ev.x = "ok" /\ r' = [r EXCEPT ![Ev.i] = q]
  ELSE Ev.x = "TimeRangeException" /\ UNCHANGED r
\* text: good text sets the range; bad text throws and changes nothing
TextOK ==
  IF Ev.good /\ Valid(Ev.a) THEN Ev.x = "ok" /\ r' = [r EXCEPT ![Ev.i] = Ev.a]
  ELSE /\ IF Ev.blank \/ Ev.good THEN Ev.x = "TimeRangeException" ELSE Ev.x # "ok"
       /\ UNCHANGED r
RelOK ==
  LET a == r[1] b == r[2] o == Ev.o
      fin == a # ALL /\ b # ALL
  IN /\ o[1] = Equal(a, b)
     /\ o[2] = Earlier(a, b)
     /\ o[3] = SubsetOf(a, b)
     /\ (fin /\ Proper(a) /\ Proper(b)) =>
          /\ o[4] = PriorTo(a, b) /\ o[5] = Overlaps(a, b) /\ o[6] = After(a, b)
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ r' = [i \in 1..2 |-> ALL]
     \/ Is("set") /\ SetOK /\ Holds
     \/ Is("text") /\ TextOK /\ Holds
     \/ Is("reset") /\ r' = [r EXCEPT ![Ev.i] = ALL] /\ Holds
     \/ Is("copy") /\ r' = [r EXCEPT ![Ev.i] = r[3 - Ev.i]] /\ Holds
     \/ Is("rel") /\ RelOK /\ UNCHANGED r
     \/ Is("print") /\ Ev.a = r[Ev.i] /\ UNCHANGED r      \* printed text parsed by the driver's own reader
TSpec == TInit /\ [][TNext]_<<r, l>>
AlwaysValid == \A i \in 1..2 : Valid(r[i])
=============================================================================
