----------------------------- MODULE CommonTime -----------------------------
(* A time value: an instant plus a time system.  The state is a bank of       *)
(* registers; ex says the value was reached by exact (integer) operations     *)
(* only, so equality must be exact too.                                       *)
EXTENDS Instant
CONSTANTS Regs, MAXDAY
VARIABLE reg      \* Regs -> [t, s, ex]

Systems == {"Unknown","Any","GPS","GLO","GAL","QZS","BDT","IRN","UTC","TAI","TT","TDB"}
Compatible(a, b) == a = "Any" \/ b = "Any" \/ a = b

ValidSet(d, ms, ns) == d \in 0..MAXDAY /\ ms \in 0..(DAYMS-1) /\ ns \in 0..(MSNS-1)

\* ---- results of the observers --------------------------------------------
LtX(a, b) == IF Compatible(a.s, b.s) THEN "ok" ELSE "InvalidRequest"
EqV(a, b) == Compatible(a.s, b.s) /\ a.t = b.t
LtV(a, b) == LtT(a.t, b.t)
DiffV(a, b) == SubT(a.t, b.t)

\* ---- actions ----------------------------------------------------------------
CTInit == reg = [r \in Regs |-> [t |-> <<0,0,0>>, s |-> "Unknown", ex |-> TRUE]]

Set(r, d, ms, ns, s) ==
  /\ ValidSet(d, ms, ns)
  /\ reg' = [reg EXCEPT ![r] = [t |-> <<d,ms,ns>>, s |-> s, ex |-> TRUE]]
SetBad(d, ms, ns) == ~ValidSet(d, ms, ns) /\ UNCHANGED reg
AddTo(r, delta, ex) ==
  reg' = [reg EXCEPT ![r] = [@ EXCEPT !.t = AddT(@, delta), !.ex = @ /\ ex]]
Copy(r, q) == reg' = [reg EXCEPT ![r] = reg[q]]
\* r := q + delta, system kept
Plus(r, q, delta, ex) ==
  reg' = [reg EXCEPT ![r] = [reg[q] EXCEPT !.t = AddT(@, delta), !.ex = @ /\ ex]]
SetSys(r, s) == reg' = [reg EXCEPT ![r].s = s]

\* ---- laws, checked on the model for every reachable pair / triple --------------
Normal == \A r \in Regs : IsNorm(reg[r].t)
Cardinality1(b) == (IF b[1] THEN 1 ELSE 0) + (IF b[2] THEN 1 ELSE 0) + (IF b[3] THEN 1 ELSE 0) = 1
Trichotomy == \A p, q \in Regs :
   Compatible(reg[p].s, reg[q].s) =>
      Cardinality1(<<LtV(reg[p],reg[q]), EqV(reg[p],reg[q]), LtV(reg[q],reg[p])>>)
Transitive == \A p, q, r \in Regs :
   LtV(reg[p],reg[q]) /\ LtV(reg[q],reg[r]) => LtV(reg[p],reg[r])
DiffLaws == \A p, q, r \in Regs :
   /\ DiffV(reg[q], reg[p]) = NegT(DiffV(reg[p], reg[q]))
   /\ AddT(reg[q].t, DiffV(reg[p], reg[q])) = reg[p].t
   /\ AddT(DiffV(reg[p], reg[q]), DiffV(reg[q], reg[r])) = DiffV(reg[p], reg[r])
   /\ (LtV(reg[p], reg[q]) <=> LtT(DiffV(reg[p], reg[q]), <<0,0,0>>))
=============================================================================
