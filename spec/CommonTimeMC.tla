---------------------------- MODULE CommonTimeMC ----------------------------
EXTENDS CommonTime, TLC
CONSTANT Deltas, Sys
DeltaSet == -3..3
VARIABLE n
Pos == {<<d,ms,ns>> : d \in 0..MAXDAY, ms \in 0..(DAYMS-1), ns \in 0..(MSNS-1)}
Init == reg \in [Regs -> {[t |-> p, s |-> x, ex |-> TRUE] : p \in Pos, x \in Sys}] /\ n = 0
Next ==
  /\ n < 1 /\ n' = n + 1
  /\ \/ \E r \in Regs, d \in 0..MAXDAY, ms \in 0..(DAYMS-1), ns \in 0..(MSNS-1), s \in Sys : Set(r, d, ms, ns, s)
     \/ \E r \in Regs, d \in {-1, 0, 1}, ms \in Deltas, ns \in Deltas : AddTo(r, <<d,ms,ns>>, FALSE)
     \/ \E r \in Regs, q \in Regs : r # q /\ Copy(r, q)
Spec == Init /\ [][Next]_<<reg, n>>
\* adding and subtracting the same amount is the identity
Inverse == \A r \in {1}, d \in {-1,1}, ms \in Deltas, ns \in Deltas :
   AddT(AddT(reg[r].t, <<d,ms,ns>>), NegT(NormT(<<d,ms,ns>>))) = reg[r].t
View == reg
=============================================================================
