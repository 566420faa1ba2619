------------------------------ MODULE NavBitsMC ------------------------------
(* A message built field by field, backed up, inverted, overwritten.  Every   *)
(* reader sees what was last written, and the order is a strict weak one.     *)
EXTENDS NavBits, FiniteSets
CONSTANT MaxLen

VARIABLES s, log       \* the bits; the fields written, as <<first bit, width, value>>
Strings(n) == {Bin(v, n) : v \in 0..(2^n - 1)}
Init == s = "" /\ log = <<>>
AddU == \E n \in 1..3 : \E v \in Strings(n) :
          Len(s) + n <= MaxLen /\ s' = s \o Field(Pad(v), n) /\ log' = Append(log, <<Len(s), n, v>>)
Back == \E k \in 0..(Len(log) - 1) : log' = SubSeq(log, 1, k) /\ s' = High(s, log[k + 1][1])
FlipAll == s' = Flip(s) /\ log' = [i \in 1..Len(log) |-> <<log[i][1], log[i][2], Flip(log[i][3])>>]
Put == \E i \in 1..Len(log) : \E v \in Strings(log[i][2]) :
         s' = Over(s, log[i][1], v) /\ log' = [log EXCEPT ![i][3] = v]
Next == AddU \/ Back \/ FlipAll \/ Put
Spec == Init /\ [][Next]_<<s, log>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Sum(Tail(q))
Tight == Len(s) = Sum(log)
ReadBack == \A i \in 1..Len(log) : Cut(s, log[i][1], log[i][2]) = log[i][3]
-----------------------------------------------------------------------------
Small == UNION {Strings(n) : n \in 0..3}
ASSUME StrictWeak == \A a, b, c \in Small : /\ ~Less(a, a)
                                             /\ (a # b => (Less(a, b) # Less(b, a)))
                                             /\ (Less(a, b) /\ Less(b, c) => Less(a, c))
Nat64(v) == Pad(Bin(v, 20))
Int64(v) == IF v < 0 THEN Neg(Nat64(-v)) ELSE Nat64(v)
Q(v, d) == IF v < 0 THEN -((-v) \div d) ELSE v \div d
Ints == -70..70
ASSUME Arithmetic == \A v \in Ints, d \in {1, 2, 3, 4, 7, 16, 300} :
                       SDiv(Int64(v), d) = Int64(Q(v, d)) /\ Mul(Int64(v), d) = Int64(v * d)
ASSUME Fits == \A v \in Ints, n \in 1..8 : /\ FitsS(Int64(v), n) = (v \in (-(2^(n - 1)))..(2^(n - 1) - 1))
                                          /\ FitsU(Int64(v), n) = (v \in 0..(2^n - 1))
ASSUME RoundTripS == \A v \in Ints, n \in 1..8 : FitsS(Int64(v), n) => AsS(Field(Int64(v), n), << <<0, n>> >>) = Int64(v)
ASSUME RoundTripSplit == \A v \in Ints, a \in 1..7 : FitsS(Int64(v), 8) =>
                       AsS("101" \o Low(Field(Int64(v), 8), 8 - a) \o "0" \o High(Field(Int64(v), 8), a), << <<12 - a, a>>, <<3, 8 - a>> >>) = Int64(v)
ASSUME SignMag == \A v \in (-15)..15 : AsSM("11" \o (IF v < 0 THEN "1" ELSE "0") \o Bin(IF v < 0 THEN -v ELSE v, 4), 2, 5) = Int64(v)
RoundQ(v, d) == IF v < 0 THEN -((-v + d \div 2) \div d) ELSE (v + d \div 2) \div d
ASSUME Rounding == \A v \in Ints, d \in 0..6 : /\ Units(Int64(v), 0, d) = Int64(IF d = 0 THEN v ELSE RoundQ(v, 2^d))
                                               /\ Units(Int64(v), d, 0) = Int64(v * 2^d)
                                               /\ Units(Int64(v), 0, 70) = Int64(0)
ASSUME Words == /\ HexWords(Rep("1", 35), 32) = <<"FFFFFFFF", "E0000000">>
                /\ HexWords(Rep("1", 60), 30) = <<"3FFFFFFF", "3FFFFFFF">>
                /\ PerLine(9, 4) = <<4, 4, 1>> /\ PerLine(8, 4) = <<4, 4>>
=============================================================================
