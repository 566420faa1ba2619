-------------------------------- MODULE Text ---------------------------------
(* A text that is worked on.  Operations replace it, questions leave it as it *)
(* is; what they give is defined by the occurrences, words, fields and digits *)
(* that the text has.                                                         *)
EXTENDS RecText, FiniteSets
A == INSTANCE Args
PosOf(s, c, i) == A!PosOf(s, c, i)

Sub(s, i, j) == IF i > j \/ Len(s) = 0 THEN "" ELSE SubSeq(s, i, j)
From(s, i) == Sub(s, i, Len(s))
AtP(s, p, i) == i + Len(p) - 1 <= Len(s) /\ Sub(s, i, i + Len(p) - 1) = p
Ends(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
\* a count of -1 is any number
Less(n) == IF n < 0 THEN n ELSE n - 1
RECURSIVE StripL(_, _, _)
StripL(s, p, n) == IF n # 0 /\ p # "" /\ AtP(s, p, 1) THEN StripL(From(s, Len(p) + 1), p, Less(n)) ELSE s
RECURSIVE StripT(_, _, _)
StripT(s, p, n) == IF n # 0 /\ p # "" /\ Ends(s, p) THEN StripT(Sub(s, 1, Len(s) - Len(p)), p, Less(n)) ELSE s
Strip(s, p, n) == StripT(StripL(s, p, n), p, n)

RECURSIVE MapC(_, _, _)
MapC(s, F(_), i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapC(s, F, i + 1)
Translate(s, a, b, pad) == MapC(s, LAMBDA c : LET i == PosOf(a, c, 1) IN IF i = 0 THEN c ELSE IF i > Len(b) THEN pad ELSE Ch(b, i), 1)
Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ToUpper(s) == Translate(s, Low, Upp, "?")
ToLower(s) == Translate(s, Upp, Low, "?")
\* occurrences of p from place i, up to n of them, left to right, each after the one before
RECURSIVE Change(_, _, _, _, _)
Change(s, p, q, i, n) ==
  IF i > Len(s) THEN ""
  ELSE IF n # 0 /\ AtP(s, p, i) THEN q \o Change(s, p, q, i + Len(p), Less(n))
  ELSE Ch(s, i) \o Change(s, p, q, i + 1, n)
ChangeFrom(s, p, q, i, n) == IF p = "" THEN s ELSE Sub(s, 1, IF i < Len(s) THEN i ELSE Len(s)) \o Change(s, p, q, i + 1, n)

JustL(s, n, c) == IF Len(s) > n THEN Sub(s, 1, n) ELSE s \o Rep(c, n - Len(s))
JustR(s, n, c) == IF Len(s) > n THEN From(s, Len(s) - n + 1) ELSE Rep(c, n - Len(s)) \o s
Center(s, n, c) == IF Len(s) > n THEN Sub(s, 1, n) ELSE LET d == n - Len(s) IN Rep(c, d - (d \div 2)) \o s \o Rep(c, d \div 2)
SubString(s, i, n, c) == JustL(Sub(s, i + 1, IF i + n < Len(s) THEN i + n ELSE Len(s)), n, c)

\* words: the longest stretches without the delimiter
Starts1(s, d) == {i \in 1..Len(s) : Ch(s, i) # d /\ (i = 1 \/ Ch(s, i - 1) = d)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
At0(s, d) == Sorted(Starts1(s, d))
EndOf(s, d, i) == LET e == PosOf(s, d, i) IN IF e = 0 THEN Len(s) ELSE e - 1
WordsOf(s, d) == [k \in 1..Len(At0(s, d)) |-> LET i == At0(s, d)[k] IN Sub(s, i, EndOf(s, d, i))]
NumWords(s, d) == Cardinality(Starts1(s, d))
FirstWord(s, d) == IF NumWords(s, d) = 0 THEN "" ELSE WordsOf(s, d)[1]
\* n words from word f (0 the first); what follows the last word may come along when more is asked than there is
WordsIn(s, f, n, d) ==
  LET at == At0(s, d)  N == Len(at)
      last == IF n < 0 \/ f + n > N THEN N ELSE f + n
      short == Sub(s, at[f + 1], EndOf(s, d, at[last])) IN
  IF f >= N \/ n = 0 THEN {""}
  ELSE IF n < 0 \/ f + n > N THEN {short, From(s, at[f + 1])} ELSE {short}
AfterFirst(s, d) == LET at == At0(s, d) IN IF Len(at) < 2 THEN "" ELSE From(s, at[2])
RemoveWords(s, f, n, d) ==
  LET at == At0(s, d)  N == Len(at) IN
  IF f >= N \/ n = 0 THEN s
  ELSE IF n < 0 \/ f + n >= N THEN StripT(Sub(s, 1, at[f + 1] - 1), d, -1)
  ELSE Sub(s, 1, at[f + 1] - 1) \o From(s, at[f + n + 1])
\* stretches without any of the delimiters
DelimOf(s, ds) == [i \in 1..Len(s) |-> PosOf(ds, Ch(s, i), 1) # 0]
Tokens(s, ds) ==
  LET D == DelimOf(s, ds)
      at == Sorted({i \in 1..Len(s) : ~D[i] /\ (i = 1 \/ D[i - 1])}) IN
  [k \in 1..Len(at) |-> Sub(s, at[k], Most({e \in at[k]..Len(s) : \A j \in at[k]..e : ~D[j]}))]
Clean(fs, trim, ign) ==
  LET t == [k \in 1..Len(fs) |-> IF trim THEN Trim(fs[k]) ELSE fs[k]] IN
  IF ign THEN SelectSeq(t, LAMBDA x : x # "") ELSE t
\* fields with a delimiter between them; a field <<quote, text>> may hold the delimiter
RECURSIVE Joined(_, _, _)
Joined(fs, d, i) == IF i > Len(fs) THEN "" ELSE (IF i > 1 THEN d ELSE "") \o fs[i][1] \o fs[i][2] \o fs[i][1] \o Joined(fs, d, i + 1)
FieldsOf(fs, trim, ign) == Clean([k \in 1..Len(fs) |-> fs[k][2]], trim, ign)

\* patterns: <<character or "" for any, "1" | "*" | "+">>
Hit(s, a, i) == i <= Len(s) /\ (a = "" \/ Ch(s, i) = a)
RECURSIVE RunUp(_, _, _)
RunUp(s, a, i) == IF Hit(s, a, i) THEN {i} \cup RunUp(s, a, i + 1) ELSE {i}
After(s, q, i) ==
  CASE q[2] = "1" -> IF Hit(s, q[1], i) THEN {i + 1} ELSE {}
    [] q[2] = "*" -> RunUp(s, q[1], i)
    [] q[2] = "+" -> RunUp(s, q[1], i) \ {i}
RECURSIVE EndsAt(_, _, _, _)
EndsAt(s, p, k, S) == IF k > Len(p) THEN S ELSE EndsAt(s, p, k + 1, UNION {After(s, p[k], i) : i \in S})
\* the first place that matches, and there the longest match
Match(s, p) ==
  LET ok == {i \in 1..(Len(s) + 1) : EndsAt(s, p, 1, {i}) # {}} IN
  IF ok = {} THEN "" ELSE LET i == Least(ok) IN Sub(s, i, Most(EndsAt(s, p, 1, {i})) - 1)

IsSci(s) ==
  LET es == {i \in 1..Len(s) : Ch(s, i) \in {"E", "e", "D", "d"}} IN
  IF es = {} THEN A!IsDec(s)
  ELSE LET i == Least(es)  x == From(s, i + 1) IN A!IsDec(Sub(s, 1, i - 1)) /\ (x = "" \/ A!IsNum(x))

\* numbers at the beginning of a text
Hex == "0123456789ABCDEF"
HexLow == "0123456789abcdef"
DigitV(c) == LET i == PosOf(Hex, c, 1) IN IF i # 0 THEN i - 1 ELSE PosOf(HexLow, c, 1) - 1
RECURSIVE RunLen(_, _, _)
RunLen(s, b, i) == IF i <= Len(s) /\ DigitV(Ch(s, i)) \in 0..(b - 1) THEN 1 + RunLen(s, b, i + 1) ELSE 0
RECURSIVE Value(_, _, _, _)
Value(s, b, i, v) == IF i <= Len(s) /\ DigitV(Ch(s, i)) \in 0..(b - 1) THEN Value(s, b, i + 1, v * b + DigitV(Ch(s, i))) ELSE v
RECURSIVE Digs(_, _, _)
Digs(n, b, ds) == IF n < b THEN Ch(ds, n + 1) ELSE Digs(n \div b, b, ds) \o Ch(ds, (n % b) + 1)
LeadNum(s) ==
  LET t == LTrim(s)  neg == t # "" /\ Ch(t, 1) = "-"  u == A!Unsigned(t) IN
  (IF neg THEN -1 ELSE 1) * Value(u, 10, 1, 0)
D2X(s) == LET t == LTrim(s) IN Digs(Value(t, 10, 1, 0), 16, Hex) \o From(t, RunLen(t, 10, 1) + 1)
X2D(s) ==
  LET t0 == LTrim(s)  t == IF AtP(t0, "0x", 1) THEN From(t0, 3) ELSE t0
  IN ToString(Value(t, 16, 1, 0)) \o From(t, RunLen(t, 16, 1) + 1)
HexNum(s) == LET t0 == LTrim(s)  t == IF AtP(t0, "0x", 1) THEN From(t0, 3) ELSE t0 IN Value(t, 16, 1, 0)
\* characters by number
Byte2(n, ds) == Ch(ds, (n \div 16) + 1) \o Ch(ds, (n % 16) + 1)
RECURSIVE C2X(_)
C2X(cs) == IF cs = <<>> THEN "" ELSE Byte2(Head(cs), Hex) \o C2X(Tail(cs))
Graphic == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Shown(n) ==
  IF n >= 32 /\ n < 127 THEN Ch(Graphic, n - 31)
  ELSE IF n >= 128 THEN "<" \o Byte2(n, Hex) \o ">"
  ELSE IF n = 127 THEN "^?" ELSE "^" \o Ch(Graphic, n + 33)
RECURSIVE Printable(_)
Printable(cs) == IF cs = <<>> THEN "" ELSE Shown(Head(cs)) \o Printable(Tail(cs))

\* lines of at most n characters: a word goes on the line when it fits
RECURSIVE Wrap(_, _, _, _, _, _)
Wrap(ws, w, line, nl, ind, n) ==
  IF w > Len(ws) THEN line \o nl
  ELSE IF ws[w] = nl THEN line \o nl \o Wrap(ws, w + 1, ind, nl, ind, n)
  ELSE IF Len(line) + Len(ws[w]) + 1 > n THEN line \o nl \o Wrap(ws, w + 1, ind \o " " \o ws[w], nl, ind, n)
  ELSE Wrap(ws, w + 1, line \o " " \o ws[w], nl, ind, n)

\* ---- exponential texts: digits of x rounded to n, as lead . rest x 10^e ---------------
DigitsE(r) == ZJ(ToString(r[2]), 7) \o ZJ(ToString(r[3]), 8)
ExpText(e, n) == (IF e < 0 THEN "-" ELSE "+") \o (LET t == ToString(IF e < 0 THEN -e ELSE e) IN IF Len(t) < n THEN ZJ(t, n) ELSE t)
SignText(x, sg) == IF x[1] < 0 THEN "-" ELSE CASE sg = "neg" -> "" [] sg = "space" -> " " [] sg = "pos" -> "+"
\* lead: "nonzero" d.ddd, "decimal" .dddd, "zero" 0.ddd; n characters of digits
FloatText(x, lead, n, ne, w, c, sg, al) ==
  LET z == x[2] = 0
      nd == IF lead = "zero" THEN n - 1 ELSE n
      r == KeepE(x, nd)
      all == SubSeq(DigitsE(r), 1, nd)
      e == IF z THEN 0 ELSE IF lead = "nonzero" THEN r[4] ELSE r[4] + 1
      m == CASE lead = "nonzero" -> Ch(all, 1) \o (IF nd = 1 THEN "" ELSE "." \o From(all, 2))
             [] lead = "decimal" -> "." \o all
             [] lead = "zero" -> "0." \o all
      t == SignText(x, sg) \o m \o c \o ExpText(e, IF ne < 2 THEN 2 ELSE ne)
  IN IF Len(t) >= w THEN t ELSE IF al = "left" THEN t \o Rep(" ", w - Len(t)) ELSE Rep(" ", w - Len(t)) \o t
\* a scientific text with its own length of exponent, made longer when it must be
SciText(x, w, p, ne, plus) ==
  LET r == KeepE(x, p + 1)
      all == SubSeq(DigitsE(r), 1, p + 1)
      t == (IF x[1] < 0 THEN "-" ELSE IF plus THEN "+" ELSE "") \o Ch(all, 1) \o "." \o From(all, 2) \o "e"
           \o ExpText(r[4], ne)
  IN IF Len(t) >= w THEN t ELSE Rep(" ", w - Len(t)) \o t
=============================================================================
