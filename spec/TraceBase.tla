----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded trace, the cursor,  *)
(* and acceptance.  A trace spec EXTENDS this and its subsystem's spec, and   *)
(* takes one step per consumed line.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* index of the next line to consume

Ev == Trace[l]
More == l <= Len(Trace)
Is(name) == Ev.e = name
\* a condition evaluated as a value: never a choice between successors
Chk(x) == x = TRUE

\* one state per consumed line plus the initial state
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN TRUE
  ELSE PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
