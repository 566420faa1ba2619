------------------------------ MODULE NavFiltMC ------------------------------
(* Small chains with every sequence of messages of three times, two           *)
(* satellites and contents that are good, bad or a rotten copy: no message is *)
(* lost or duplicated, what comes out is in order of time and has been voted. *)
EXTENDS NavFilt
CONSTANTS MaxMsgs, MaxChain, Kinds
MTest(f, m) == m.w # "bad"
MChange(fmt, w) == IF w = "inv" THEN "a" ELSE w
MSlot(w) == 0
MFits(a, b, c) == FALSE
F(k) == CASE k = "cross" -> [k |-> "cross", total |-> 3, same |-> 2, depth |-> 0, epoch |-> 0, fmt |-> ""]
          [] k = "pair" -> [k |-> "cross", total |-> 2, same |-> 2, depth |-> 0, epoch |-> 0, fmt |-> ""]
          [] k = "order" -> [k |-> "order", total |-> 0, same |-> 0, depth |-> 1, epoch |-> 1, fmt |-> ""]
          [] OTHER -> [k |-> k, total |-> 0, same |-> 0, depth |-> 0, epoch |-> 0, fmt |-> ""]
Chains == UNION {[1..n -> Kinds] : n \in 1..MaxChain}
VARIABLES fs, sts, n, out, rej, done
vars == <<fs, sts, n, out, rej, done>>
None == [k \in 1..Len(fs) |-> {}]
Init == \E c \in Chains : fs = [k \in DOMAIN c |-> F(c[k])] /\ sts = [k \in DOMAIN c |-> Held0] /\ n = 0 /\ out = <<>> /\ rej = <<>> /\ done = FALSE
Rejs(r) == Flat(r.rejs)
Msg == n < MaxMsgs /\ ~done /\ \E t \in {1, 2, 4}, p \in 1..2 : \E w \in (IF p = 1 THEN {"a", "inv", "bad"} ELSE {"a"}) :
  LET r == Give(fs, sts, << [id |-> n + 1, t |-> t, prn |-> p, key |-> 1, w |-> w] >>, None)
  IN sts' = r.sts /\ out' = out \o r.out /\ rej' = rej \o Rejs(r) /\ n' = n + 1 /\ UNCHANGED <<fs, done>>
Fini == ~done /\ LET r == Finish(fs, sts, None) IN sts' = r.sts /\ out' = out \o r.out /\ rej' = rej \o Rejs(r) /\ done' = TRUE /\ UNCHANGED <<fs, n>>
Next == Msg \/ Fini
Spec == Init /\ [][Next]_vars
Ids(s) == {s[i].id : i \in 1..Len(s)}
InFilters == Flat([k \in 1..Len(fs) |-> sts[k].held])
\* every message is in one place, once
Conserved ==
  LET all == out \o rej \o InFilters IN Len(all) = n /\ Ids(all) = 1..n
Emptied == done => InFilters = <<>>
Has(k) == \E i \in 1..Len(fs) : fs[i].k = k
LastIs(k) == fs[Len(fs)].k = k
\* what an order filter gives is in order
InOrder == LastIs("order") => \A i \in 1..(Len(out) - 1) : out[i].t <= out[i + 1].t
Tested == Has("test") => (\A i \in 1..Len(out) : out[i].w # "bad")
\* a vote: what comes out came more than once, and nothing else from that satellite then
Voted == (LastIs("cross") /\ \A i \in 1..(Len(fs) - 1) : fs[i].k \notin {"cross"}) =>
  \A i \in 1..Len(out) : Cardinality({j \in 1..Len(out) : out[j].t = out[i].t /\ out[j].prn = out[i].prn}) >= 2
\* a chain of filters that decide at once holds nothing
AtOnce == (\A i \in 1..Len(fs) : fs[i].k \notin {"cross", "order"}) => InFilters = <<>>
=============================================================================
