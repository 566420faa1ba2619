------------------------------ MODULE InForceMC ------------------------------
(* Stores by time under every history of additions, removals and editing: what *)
(* is in force is what was given last for that time, although a model that is  *)
(* in force already is not kept twice; and what is near lies around the time.  *)
(* The table of satellites is free of clashes and every satellite has a block. *)
EXTENDS InForce
CONSTANTS T, M, Ops
VARIABLES io, given, wx, n, inorder
vars == <<io, given, wx, n, inorder>>
Times == 0..T
Init == io = {} /\ given = <<>> /\ wx = {} /\ n = 0 /\ inorder = TRUE
Ob(t, v) == [t |-> t, temp |-> v, pres |-> v, hum |-> v, ok |-> TRUE]
AddModel == \E t \in Times, m \in 1..M :
  /\ io' = IonoAdd(io, t, m, TRUE) /\ given' = Append(given, <<t, m>>)
  /\ inorder' = (inorder /\ \A i \in 1..Len(given) : given[i][1] <= t) /\ UNCHANGED wx
AddWx == \E t \in Times, v \in 1..2 : wx' = Put(wx, Ob(t, v)) /\ UNCHANGED <<io, given, inorder>>
Flush == \E t \in Times : wx' = {x \in wx : x.t >= t} /\ UNCHANGED <<io, given, inorder>>
Next == n < Ops /\ n' = n + 1 /\ (AddModel \/ AddWx \/ Flush)
Spec == Init /\ [][Next]_vars
LastGiven(t) == LET s == {i \in 1..Len(given) : given[i][1] <= t} IN IF s = {} THEN 0 ELSE given[CHOOSE i \in s : \A j \in s : j <= i][2]
InForceIsLast == inorder => \A t \in Times : IonoAt(io, t) = LastGiven(t)
Known == \A t \in Times : IonoAt(io, t) = 0 <=> ~\E i \in 1..Len(given) : given[i][1] <= t
OnePerTime == /\ \A x, y \in io : x.t = y.t => x = y
              /\ \A x, y \in wx : x.t = y.t => x = y
NearOK == \A t \in Times, iv \in 0..T : LET N == Near(wx, t, iv) IN
  /\ Cardinality(N) <= 2
  /\ (N = {} <=> \A x \in wx : Abs(x.t - t) > iv)
  /\ (Cardinality(N) = 2 => (\E b, a \in N : b.t <= t /\ t < a.t) /\ Closer(N, t) \in N
                             /\ \A x \in wx : Abs(x.t - t) >= Abs(Closer(N, t).t - t))
\* an observation at the time itself is the answer, interpolated or not
Exact == \A x \in wx, iv \in 0..T : WxOK(wx, x.t, iv, TRUE, "ok", [t |-> x.t, temp |-> 64 * x.temp, pres |-> 64 * x.pres, hum |-> 64 * x.hum, ok |-> TRUE])
RecentOK == wx # {} => \A t \in Times : LET r == Recent(wx, t) IN r \in wx /\ (r.t <= t \/ \A x \in wx : x.t > t)
Table == /\ n = 0 => Consistent(Assigned)
         /\ n = 0 => \A r \in SetOf(Assigned) : LE(r[3], r[4]) /\ Cardinality(BlockOf(r[1])) = 1
=============================================================================
