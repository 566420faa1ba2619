------------------------------- MODULE LNavMC -------------------------------
(* The broadcast as a state machine: one subframe every 6 s through a week,   *)
(* and static facts about the parity code and the page layouts.               *)
EXTENDS LNav

VARIABLES how, sf, page       \* of the subframe on the air
Init == how = 1 /\ sf = 1 /\ page = 1
Next ==
  /\ how' = (how + 1) % WEEKSF
  /\ IF how = 0 THEN sf' = 1 /\ page' = 1          \* the week restarts the cycle
     ELSE /\ sf' = (sf % 5) + 1
          /\ page' = IF sf = 5 THEN (page % 25) + 1 ELSE page
Spec == Init /\ [][Next]_<<how, sf, page>>
PagingFollowsCount == SfOf(how) = sf /\ PageOf(how) = page
EveryPageNamed == sf \in {4, 5} => SvOf(sf, page) \in 1..63 /\ <<sf, page>> \in PagesOf(SvOf(sf, page))

-----------------------------------------------------------------------------
(* The code is linear: an error pattern is noticed iff its own check fails.   *)
(* Positions 1..30 are the word's bits, 31 and 32 the previous D29 and D30.   *)
Word(T) == LET RECURSIVE Sum(_)
               Sum(i) == IF i = 0 THEN 0 ELSE (IF i \in T THEN Pow2[30 - i] ELSE 0) + Sum(i - 1)
           IN  Sum(30)
PrevWord(T) == (IF 31 \in T THEN 2 ELSE 0) + (IF 32 \in T THEN 1 ELSE 0)
Up3 == {{i} : i \in 1..32} \cup {{i, j} : i, j \in 1..32} \cup {{i, j, k} : i, j, k \in 1..32}
\* every error of at most three bits, in the word or in the two carried over, is noticed
ASSUME Distance == \A T \in Up3 : ~ParityOK(Word(T), PrevWord(T), FALSE)
\* both words that close a frame can always be completed so that the next word starts from zeros
ASSUME Completes ==
  \A T \in {{}} \cup {{i} : i \in 1..22} \cup {{i, j} : i, j \in 1..22}, p \in 0..3, up \in BOOLEAN :
    LET w == Fixed(Word(T), p, TRUE, up)
    IN  w % 4 = 0 /\ ParityOK(w, p, up) /\ w \div 256 = Word(T) \div 256
\* complementing a word and its predecessor's D30 leaves the source data
ASSUME Inversion ==
  \A i \in 1..24, p \in {0, 2} :
    LET w == Word({i}) IN Parity(w, p, FALSE) = Parity(w, p, TRUE)

-----------------------------------------------------------------------------
(* Layouts: the parts of a page are disjoint, hold no parity bit, and between *)
(* the two words no field reaches into the next one's bits.                   *)
Parts(pat) == {<<k, 1>> : k \in 1..Len(Layout[pat])} \cup {<<k, 2>> : k \in {j \in 1..Len(Layout[pat]) : Layout[pat][j][4] > 0}}
PartBits(pat, q) == LET f == Layout[pat][q[1]] IN IF q[2] = 1 THEN f[1]..(f[1] + f[2] - 1) ELSE f[3]..(f[3] + f[4] - 1)
SameTwice(pat, a, b) == pat = 4 /\ {a[1], b[1]} = {7, 20}     \* the PRN is the page identifier
ASSUME Disjoint == \A pat \in 1..10 : \A a, b \in Parts(pat) :
         a = b \/ SameTwice(pat, a, b) \/ PartBits(pat, a) \cap PartBits(pat, b) = {}
ASSUME NoParity == \A pat \in 1..10 : \A a \in Parts(pat) : \A b \in PartBits(pat, a) : b \in 1..300 /\ ((b - 1) % 30) + 1 <= 24
ASSUME Sizes == \A pat \in 1..10 : Len(Layout[pat]) = <<16, 16, 14, 20, 32, 15, 15, 23, 47, 29>>[pat]
\* the data bits no output carries are the reserved and the computed ones
Unused(pat) == {b \in 1..300 : ((b - 1) % 30) + 1 <= 24 /\ \A a \in Parts(pat) : b \notin PartBits(pat, a)}
ASSUME Coverage ==
  /\ Unused(2) = {23, 24, 53, 54, 293, 294}
  /\ Unused(3) = {23, 24, 53, 54, 293, 294}
  /\ Unused(4) = {23, 24, 53, 54, 293, 294}
  /\ \A pat \in {6, 7} : Unused(pat) = {23, 24, 53, 54} \cup (271..294)
  /\ Unused(10) = {23, 24, 53, 54} \cup (287..294)
(* Truncated weeks. *)
ASSUME Weeks == \A m \in {256, 1024}, full \in {0, 1, 127, 128, 255, 256, 511, 512, 1023, 1024, 1500, 2047, 2048, 2200}, part \in {0, 1, 127, 128, 129, 255} :
  LET s == Nearest(full, part, m)
  IN  Cardinality(s) \in {1, 2} /\ (Cardinality(s) = 2 => (part - full) % m = m \div 2) /\ \A x \in s : (x - part) % m = 0
=============================================================================
