-------------------------------- MODULE LNav --------------------------------
(* The GPS legacy navigation message (IS-GPS-200 section 20.3 and appendix II):*)
(* parity, paging, page identification, the layout of the ten page formats,    *)
(* the resolution of truncated weeks, and what a collection of pages means.    *)
(* A word is the number of its 30 bits, bit 1 most significant; a subframe is  *)
(* a sequence of ten words.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EC == INSTANCE EphConv

Pow2 == [n \in 0..30 |-> 2 ^ n]
Bit(w, i) == (w \div Pow2[30 - i]) % 2

-----------------------------------------------------------------------------
(* Parity, table 20-XIV.  D29s and D30s are the last two bits of the previous  *)
(* word; the source data bits are the word's own when it is upright, otherwise *)
(* they are complemented by D30s.                                              *)
Sets == << {1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 17, 18, 20, 23},
           {2, 3, 4, 6, 7, 11, 12, 13, 14, 15, 18, 19, 21, 24},
           {1, 3, 4, 5, 7, 8, 12, 13, 14, 15, 16, 19, 20, 22},
           {2, 4, 5, 6, 8, 9, 13, 14, 15, 16, 17, 20, 21, 23},
           {1, 3, 5, 6, 7, 9, 10, 14, 15, 16, 17, 18, 21, 22, 24},
           {3, 5, 6, 8, 9, 10, 11, 13, 15, 19, 22, 23, 24} >>
Star == <<29, 30, 29, 30, 30, 29>>
SourceBit(w, prev, up, i) == IF up THEN Bit(w, i) ELSE (Bit(w, i) + Bit(prev, 30)) % 2
ParityBit(w, prev, up, k) ==
  (Bit(prev, Star[k]) + Cardinality({i \in Sets[k] : SourceBit(w, prev, up, i) = 1})) % 2
Parity(w, prev, up) ==
  LET b == [k \in 1..6 |-> ParityBit(w, prev, up, k)]
  IN  32 * b[1] + 16 * b[2] + 8 * b[3] + 4 * b[4] + 2 * b[5] + b[6]
ParityOK(w, prev, up) == w % 64 = Parity(w, prev, up)
Prev(sf, k) == IF k = 1 THEN 0 ELSE sf[k - 1]
SubframeOK(sf, up) == \A k \in 1..10 : ParityOK(sf[k], Prev(sf, k), up)
\* the word with its parity; in words 2 and 10 bits 23 and 24 are solved for, so that the last two parity bits are zero
WithParity(w, prev, up) == (w \div 64) * 64 + Parity(w, prev, up)
Solve(w, prev, up) ==
  LET base == (w \div 256) * 256
  IN  CHOOSE x \in {WithParity(base + t * 64, prev, up) : t \in 0..3} : x % 4 = 0
Fixed(w, prev, nib, up) == IF nib THEN Solve(w, prev, up) ELSE WithParity(w, prev, up)

-----------------------------------------------------------------------------
(* The hand-over word.                                                         *)
Tow(how) == how \div Pow2[13]
SfId(how) == (how \div 256) % 8
HowTime(how) == 6 * Tow(how)

(* Paging.  A subframe lasts 6 s; the count in its hand-over word is that of   *)
(* the start of the next one; the cycle of 25 pages restarts with the week, so *)
(* the last subframe of the week, which announces count 0, is of page 10.      *)
WEEKSF == 100800
SfOf(tow) == LET t == IF tow = 0 THEN WEEKSF ELSE tow IN ((t - 1) % 5) + 1
PageOf(tow) == LET t == IF tow = 0 THEN WEEKSF ELSE tow IN (((t - 1) \div 5) % 25) + 1

(* SV/page identifiers, table 20-V.                                            *)
Sf4 == << 57, 25, 26, 27, 28, 57, 29, 30, 31, 32, 57, 62, 52, 53, 54, 57, 55, 56, 58, 59, 57, 60, 61, 62, 63 >>
SvOf(sf, page) == IF sf \notin {4, 5} \/ page \notin 1..25 THEN 0
                  ELSE IF sf = 4 THEN Sf4[page] ELSE IF page = 25 THEN 51 ELSE page
PagesOf(sv) == {p \in {4, 5} \X (1..25) : SvOf(p[1], p[2]) = sv}

(* The page format a subframe has: 1..3 for the ephemeris subframes, 4 almanac *)
(* orbit, 5 page 51, 6 and 7 reserved, 8 page 56, 9 page 63, 10 the special    *)
(* message, 0 none of them.                                                    *)
Pattern(sf) ==
  LET id == SfId(sf[2])
      sv == (sf[3] \div Pow2[22]) % 64
  IN  IF id \in 1..3 THEN id
      ELSE IF id \notin {4, 5} THEN 0
      ELSE IF sv <= 32 THEN 4
      ELSE CASE sv = 51 -> 5 [] sv = 55 -> 10 [] sv = 56 -> 8 [] sv = 63 -> 9
             [] sv \in {52, 53, 54, 57} -> 6 [] sv \in 58..62 -> 7 [] OTHER -> 0

-----------------------------------------------------------------------------
(* Layouts.  A field is << first bit, number of bits, first bit and number of  *)
(* a second part, signed, exponent of two, exponent of pi, integer factor >>;  *)
(* bits are numbered through the subframe.  The k-th field is output k - 1.    *)
U(b, n) == <<b, n, 0, 0, FALSE, 0, 0, 1>>
X(b, n, p) == <<b, n, 0, 0, FALSE, p, 0, 1>>
S(b, n, p) == <<b, n, 0, 0, TRUE, p, 0, 1>>
SP(b, n, p) == <<b, n, 0, 0, TRUE, p, 1, 1>>
Lead == << U(1, 8), U(9, 14), <<31, 17, 0, 0, FALSE, 0, 0, 6>>, U(48, 2), U(50, 3) >>
PageLead == Lead \o << U(61, 2), U(63, 6) >>
Reserved == PageLead \o << U(69, 16), U(91, 24), U(121, 24), U(151, 24), U(181, 24), U(211, 24), U(241, 8), U(249, 16) >>
\* n equal fields, m to a word, the first of the word at bit off
Run6(word) == [k \in 1..4 |-> U(30 * (word - 1) + 6 * k - 5, 6)]
Run4(word) == [k \in 1..6 |-> U(30 * (word - 1) + 4 * k - 3, 4)]
Run8(word) == [k \in 1..3 |-> U(30 * (word - 1) + 8 * k - 7, 8)]
Layout ==
  << \* 1: clock
     Lead \o << U(61, 10), U(71, 2), U(73, 4), U(77, 6), <<83, 2, 211, 8, FALSE, 11, 0, 1>>, U(91, 1), S(197, 8, -31),
                X(219, 16, 4), S(241, 8, -55), S(249, 16, -43), S(271, 22, -31) >>,
     \* 2: first half of the orbit
     Lead \o << X(61, 8, 11), S(69, 16, -5), SP(91, 16, -43), <<107, 8, 121, 24, TRUE, -31, 1, 1>>, S(151, 16, -29),
                <<167, 8, 181, 24, FALSE, -33, 0, 1>>, S(211, 16, -29), <<227, 8, 241, 24, FALSE, -19, 0, 1>>,
                X(271, 16, 4), U(287, 1), <<288, 5, 0, 0, FALSE, 0, 0, 900>> >>,
     \* 3: second half
     Lead \o << S(61, 16, -29), <<77, 8, 91, 24, TRUE, -31, 1, 1>>, S(121, 16, -29), <<137, 8, 151, 24, TRUE, -31, 1, 1>>,
                S(181, 16, -5), <<197, 8, 211, 24, TRUE, -31, 1, 1>>, SP(241, 24, -43), X(271, 8, 11), SP(279, 14, -43) >>,
     \* 4: almanac orbit; output 18 is the reference week and is not in the page
     PageLead \o << X(69, 16, -21), X(91, 8, 12), SP(99, 16, -19), SP(121, 16, -38), U(137, 8), X(151, 24, -11),
                    SP(181, 24, -23), SP(211, 24, -23), SP(241, 24, -23), <<271, 8, 290, 3, TRUE, -20, 0, 1>>,
                    S(279, 11, -38), U(1, 0), U(63, 6) >>,
     \* 5: page 51, reference week and health of 1..24
     PageLead \o << U(77, 8) >> \o Run6(4) \o Run6(5) \o Run6(6) \o Run6(7) \o Run6(8) \o Run6(9),
     Reserved, Reserved,
     \* 8: page 56, ionosphere and UTC
     PageLead \o << S(69, 8, -30), <<77, 8, 0, 0, TRUE, -27, -1, 1>>, <<91, 8, 0, 0, TRUE, -24, -2, 1>>, <<99, 8, 0, 0, TRUE, -24, -3, 1>>,
                    S(107, 8, 11), <<121, 8, 0, 0, TRUE, 14, -1, 1>>, <<129, 8, 0, 0, TRUE, 16, -2, 1>>, <<137, 8, 0, 0, TRUE, 16, -3, 1>>,
                    <<181, 24, 211, 8, TRUE, -30, 0, 1>>, S(151, 24, -50), X(219, 8, 12), U(227, 8), S(241, 8, 0), U(249, 8), U(257, 8), S(271, 8, 0) >>,
     \* 9: page 63, configuration of 1..32 and health of 25..32
     PageLead \o << U(69, 4), U(73, 4), U(77, 4), U(81, 4) >> \o Run4(4) \o Run4(5) \o Run4(6) \o Run4(7)
              \o << U(211, 4), U(215, 4), U(219, 4), U(223, 4), U(229, 6) >> \o Run6(9) \o << U(271, 6), U(277, 6), U(283, 6) >>,
     \* 10: special message
     PageLead \o << U(69, 8), U(77, 8) >> \o Run8(4) \o Run8(5) \o Run8(6) \o Run8(7) \o Run8(8) \o Run8(9) \o << U(271, 8), U(279, 8) >> >>

BitAt(sf, b) == Bit(sf[((b - 1) \div 30) + 1], ((b - 1) % 30) + 1)
FieldBits(sf, f) == [k \in 1..f[2] |-> BitAt(sf, f[1] + k - 1)] \o [k \in 1..f[4] |-> BitAt(sf, f[3] + k - 1)]
RECURSIVE ToNat(_)
ToNat(b) == IF b = <<>> THEN 0 ELSE 2 * ToNat(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE NatBits(_)
NatBits(n) == IF n = 0 THEN <<>> ELSE NatBits(n \div 2) \o << n % 2 >>
LastOne(b) == CHOOSE j \in 1..Len(b) : b[j] = 1 /\ \A k \in (j + 1)..Len(b) : b[k] = 0
FirstOne(b) == CHOOSE j \in 1..Len(b) : b[j] = 1 /\ \A k \in 1..(j - 1) : b[k] = 0
\* two's complement
Minus(b) == LET j == LastOne(b) IN [k \in 1..Len(b) |-> IF k < j THEN 1 - b[k] ELSE b[k]]
RECURSIVE Str(_)
Str(b) == IF b = <<>> THEN "" ELSE (IF b[1] = 1 THEN "1" ELSE "0") \o Str(Tail(b))

(* A number is << exponent of pi, sign, binary digits of the odd mantissa,     *)
(* exponent of two >>; zero is << 0, 0, "0", 0 >>.                             *)
Zero == <<0, 0, "0", 0>>
NumBits(b, signed, p2, pk) ==
  IF \A k \in 1..Len(b) : b[k] = 0 THEN Zero
  ELSE LET neg == signed /\ b[1] = 1
           m == IF neg THEN Minus(b) ELSE b
           z == LastOne(m)
       IN  <<pk, IF neg THEN 1 ELSE 0, Str(SubSeq(m, FirstOne(m), z)), p2 + Len(m) - z>>
NumInt(n) == IF n < 0 THEN NumBits(<<1>> \o NatBits(-n), FALSE, 0, 0) ELSE NumBits(NatBits(n), FALSE, 0, 0)
FieldNum(sf, f) ==
  LET b == FieldBits(sf, f)
  IN  IF f[8] = 1 THEN NumBits(b, f[5], f[6], f[7]) ELSE NumInt(f[8] * ToNat(b))

-----------------------------------------------------------------------------
(* Truncated weeks: the full week congruent to the truncated one and nearest   *)
(* to the reference; at exactly half the range both neighbours are as near.    *)
Nearest(full, part, mod) ==
  LET c == full - (full % mod) + part
  IN  {x \in {c - mod, c, c + mod} : x - full <= mod \div 2 /\ full - x <= mod \div 2}
WeekNums(full, part, mod) == {NumInt(x) : x \in {y \in Nearest(full, part, mod) : y >= 0}}

(* What the conversion of a subframe gives at output k, as the set of allowed  *)
(* numbers.                                                                    *)
Outs(sf, pat, week, k) ==
  LET f == Layout[pat][k]
  IN  IF pat = 1 /\ k = 6 THEN WeekNums(week, ToNat(FieldBits(sf, f)), 1024)
      ELSE IF pat = 4 /\ k = 19 THEN {NumInt(week)}
      ELSE IF pat = 8 /\ k \in {19, 21} THEN WeekNums(week, ToNat(FieldBits(sf, f)), 256)
      ELSE {FieldNum(sf, f)}

-----------------------------------------------------------------------------
(* The corrections' validity (section 20.3.3.4.4): times are <<week, second>>. *)
WEEK == 604800
Norm(t) == <<t[1] + (t[2] \div WEEK), t[2] % WEEK>>
AddSec(t, s) == Norm(<<t[1], t[2] + s>>)
NearWeek(ref, sow) ==
  LET d == ref[2] - sow
  IN  IF 2 * d > WEEK THEN <<ref[1] + 1, sow>> ELSE IF 2 * d < -WEEK THEN <<ref[1] - 1, sow>> ELSE <<ref[1], sow>>
Aodo(sf) == 900 * ToNat(FieldBits(sf, Layout[2][16]))
ToeSow(sf) == 16 * ToNat(FieldBits(sf, Layout[2][14]))
NmctTot(sf, week) == AddSec(<<week, HowTime(sf[2])>>, -6)
NmctToe(sf, week) == NearWeek(NmctTot(sf, week), ToeSow(sf))
Nmct(sf, week) ==
  LET o == ToeSow(sf) % 7200
  IN  AddSec(NmctToe(sf, week), (IF o = 0 THEN 0 ELSE 7200 - o) - Aodo(sf))

-----------------------------------------------------------------------------
(* An ephemeris being collected: the latest of each of subframes 1..3.         *)
EmptyEph == [have |-> {}, sf |-> <<<<>>, <<>>, <<>>>>, week |-> 0, prn |-> 0, track |-> 0, lead |-> TRUE]
EphPut(e, sf, week, prn, track) ==
  LET i == SfId(sf[2])
      n == [e EXCEPT !.have = @ \cup {i}, !.sf[i] = sf]
  IN  IF n.have = {1, 2, 3} THEN [n EXCEPT !.week = week, !.prn = prn, !.track = track] ELSE n
EphSet(e) == e.have = {1, 2, 3}
\* the parameters, by name: page format, output
EphField == << <<"tlm1", 1, 2>>, <<"how1", 1, 3>>, <<"as1", 1, 4>>, <<"code", 1, 7>>, <<"acc", 1, 8>>, <<"health", 1, 9>>,
               <<"l2p", 1, 11>>, <<"tgd", 1, 12>>, <<"toc", 1, 13>>, <<"af2", 1, 14>>, <<"af1", 1, 15>>, <<"af0", 1, 16>>,
               <<"tlm2", 2, 2>>, <<"how2", 2, 3>>, <<"as2", 2, 4>>, <<"crs", 2, 7>>, <<"dn", 2, 8>>, <<"m0", 2, 9>>, <<"cuc", 2, 10>>,
               <<"ecc", 2, 11>>, <<"cus", 2, 12>>, <<"ahalf", 2, 13>>, <<"toe", 2, 14>>, <<"fiti", 2, 15>>, <<"aodo", 2, 16>>,
               <<"tlm3", 3, 2>>, <<"how3", 3, 3>>, <<"as3", 3, 4>>, <<"cic", 3, 6>>, <<"omega0", 3, 7>>, <<"cis", 3, 8>>, <<"i0", 3, 9>>,
               <<"crc", 3, 10>>, <<"w", 3, 11>>, <<"omegadot", 3, 12>>, <<"idot", 3, 14>> >>
\* message words, flags and times that a collection without hand-over words does not hold
LeadNames == {"tlm1", "tlm2", "tlm3", "as1", "as2", "as3"}
EphWeeks(e) == {w \in Nearest(e.week, ToNat(FieldBits(e.sf[1], Layout[1][6])), 1024) : w >= 0}
Iodc(e) == ToNat(FieldBits(e.sf[1], Layout[1][10]))
Iode(e) == ToNat(FieldBits(e.sf[2], Layout[2][6]))
HowT(e, k) == HowTime(e.sf[k][2])
TocSow(e) == 16 * ToNat(FieldBits(e.sf[1], Layout[1][13]))
ToeTime(e, wk) == NearWeek(<<wk, HowT(e, 2)>>, ToeSow(e.sf[2]))
TocTime(e, wk) == NearWeek(<<wk, HowT(e, 2)>>, TocSow(e))
FitSec(e) == (EC!FitHours(Iodc(e), ToNat(FieldBits(e.sf[2], Layout[2][15]))) \div 2) * 3600

-----------------------------------------------------------------------------
(* An almanac being collected: the latest page of each kind.                   *)
EmptyAlm == [orb |-> [p \in 1..32 |-> <<>>], p51 |-> <<>>, p56 |-> <<>>, p63 |-> <<>>]
AlmPage(sf) == sf[1] \div Pow2[22] = 139 /\ SfId(sf[2]) \in {4, 5}
AlmPut(a, sf, week) ==
  LET pat == Pattern(sf)
      prn == (sf[3] \div Pow2[22]) % 64
      x == [sf |-> sf, week |-> week]
  IN  CASE pat = 4 /\ prn # 0 -> [a EXCEPT !.orb[prn] = x]
        [] pat = 5 -> [a EXCEPT !.p51 = x]
        [] pat = 8 -> [a EXCEPT !.p56 = x]
        [] pat = 9 -> [a EXCEPT !.p63 = x]
        [] OTHER -> a
AlmField == << <<"ecc", 8>>, <<"toa", 9>>, <<"ioff", 10>>, <<"omegadot", 11>>, <<"health", 12>>, <<"ahalf", 13>>, <<"omega0", 14>>,
               <<"w", 15>>, <<"m0", 16>>, <<"af0", 17>>, <<"af1", 18>>, <<"xmit", 3>> >>
UtcField == << <<"a0", 8>>, <<"a1", 9>>, <<"a2", 10>>, <<"a3", 11>>, <<"b0", 12>>, <<"b1", 13>>, <<"b2", 14>>, <<"b3", 15>>, <<"A0", 16>>,
               <<"A1", 17>>, <<"tot", 18>>, <<"wnt", 19>>, <<"dtls", 20>>, <<"wnlsf", 21>>, <<"dn", 22>>, <<"dtlsf", 23>> >>
Health6(a, prn) ==
  IF prn \in 1..24 THEN IF a.p51 = <<>> THEN -1 ELSE ToNat(FieldBits(a.p51.sf, Layout[5][8 + prn]))
  ELSE IF a.p63 = <<>> THEN -1 ELSE ToNat(FieldBits(a.p63.sf, Layout[9][15 + prn]))
Config(a, prn) == IF a.p63 = <<>> THEN -1 ELSE ToNat(FieldBits(a.p63.sf, Layout[9][7 + prn]))
ToaSow(sf) == 4096 * ToNat(FieldBits(sf, Layout[4][9]))
\* an almanac orbit comes with the week of its reference time; its transmission is the nearest instant with its second of week
ToaTime(x) == <<x.week, ToaSow(x.sf)>>
XmitTime(x) == NearWeek(ToaTime(x), HowTime(x.sf[2]))
=============================================================================
