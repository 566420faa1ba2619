--------------------------- MODULE CommonTimeTrace ---------------------------
(* Events recorded by harness/c01.cpp.  Every event that changes a register    *)
(* carries the register's full contents afterwards: v = <<day,ms,ns>>, s, and  *)
(* nf = the internal fields are inside their documented ranges.                *)
EXTENDS CommonTime, TraceBase

TInit == CTInit /\ l = 1

\* the register named by the event holds what the model now says
Holds == LET r == reg'[Ev.r] IN
   /\ Ev.nf /\ Ev.s = r.s /\ NearT(NormT(Ev.v), r.t, IF r.ex THEN 0 ELSE 2)

B(x) == IF x THEN 1 ELSE 0
CmpOK ==
  LET a == reg[Ev.a] b == reg[Ev.b]
      strict == (a.ex /\ b.ex) \/ ~NearT(a.t, b.t, 8)
      same == Compatible(a.s, b.s)
      o == Ev.o      \* <<lt, le, gt, ge, eq, ne>>, each "T","F" or an exception name
      T(x) == IF x THEN "T" ELSE "F"
  IN IF same
     THEN /\ \A i \in 1..6 : o[i] \in {"T","F"}
          /\ strict => /\ o[1] = T(LtV(a,b))
                       /\ o[5] = T(EqV(a,b))
          /\ o[2] = T(o[1] = "T" \/ o[5] = "T")
          /\ o[3] = T(o[2] = "F")
          /\ o[4] = T(o[1] = "F")
          /\ o[6] = T(o[5] = "F")
     ELSE /\ \A i \in 1..4 : o[i] = "InvalidRequest"
          /\ o[5] = "F" /\ o[6] = "T"

DiffOK ==
  LET a == reg[Ev.a] b == reg[Ev.b] IN
  IF Compatible(a.s, b.s)
  THEN /\ Ev.x = "ok"
       /\ IF Ev.fine THEN NearT(NormT(Ev.v), DiffV(a,b), 3) ELSE NearMs(NormT(Ev.v), DiffV(a,b), 1)
  ELSE Ev.x = "InvalidRequest"

ReadOK ==
  LET a == reg[Ev.r] IN
  /\ NearT(NormT(Ev.g1), a.t, 2) /\ Ev.s1 = a.s       \* get(day, sod, fsod, sys)
  /\ NearT(NormT(Ev.g2), a.t, 2) /\ Ev.s2 = a.s       \* get(day, sod, sys)
  /\ NearMs(NormT(Ev.g3), a.t, 1)                     \* get(day as double)
  /\ NearMs(NormT(Ev.g4), a.t, 1)                     \* getDays()
  /\ NearT(NormT(<<a.t[1], Ev.g5[1], Ev.g5[2]>>), a.t, 2)  \* getSecondOfDay()
  /\ (a.ex /\ a.t[1] >= 0) => Ev.str = <<a.t[1], a.t[2]>>                   \* asString()

Delta == Ev.w
TNext ==
  /\ More /\ l' = l + 1
  /\ \/ Is("new") /\ reg' = [r \in Regs |-> [t |-> <<0,0,0>>, s |-> "Unknown", ex |-> TRUE]]
     \/ Is("set") /\ Ev.x = "ok" /\ Set(Ev.r, Ev.w[1], Ev.w[2], Ev.w[3], Ev.ws) /\ Holds
     \* set through floating fields: same instant, not known exact
     \/ Is("setf") /\ Ev.x = "ok" /\ ValidSet(Ev.w[1], Ev.w[2], Ev.w[3])
          /\ reg' = [reg EXCEPT ![Ev.r] = [t |-> Ev.w, s |-> Ev.ws, ex |-> FALSE]] /\ Holds
     \* set from a fractional day: instant known to a millisecond, then adopted
     \/ Is("setd") /\ Ev.x = "ok" /\ NearMs(NormT(Ev.v), Ev.w, 1)
          /\ reg' = [reg EXCEPT ![Ev.r] = [t |-> NormT(Ev.v), s |-> Ev.ws, ex |-> FALSE]] /\ Holds
     \/ Is("setbad") /\ Ev.x = "InvalidParameter" /\ UNCHANGED reg /\ Holds
     \/ Is("add") /\ AddTo(Ev.r, Delta, Ev.ex) /\ Holds
     \/ Is("plus") /\ Plus(Ev.r, Ev.q, Delta, Ev.ex) /\ Holds
     \/ Is("copy") /\ Copy(Ev.r, Ev.q) /\ Holds
     \/ Is("sys") /\ SetSys(Ev.r, Ev.ws) /\ Holds
     \/ Is("keep") /\ UNCHANGED reg /\ Holds
     \/ Is("reset") /\ reg' = [reg EXCEPT ![Ev.r] = [t |-> <<0,0,0>>, s |-> Ev.s, ex |-> TRUE]] /\ Holds
     \/ Is("cmp") /\ CmpOK /\ UNCHANGED reg
     \/ Is("diff") /\ DiffOK /\ UNCHANGED reg
     \/ Is("read") /\ ReadOK /\ UNCHANGED reg
     \/ Is("lim") /\ Ev.o = <<TRUE, TRUE>> /\ UNCHANGED reg
TSpec == TInit /\ [][TNext]_<<reg, l>>
=============================================================================
