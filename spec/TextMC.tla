------------------------------- MODULE TextMC --------------------------------
(* Every text up to MaxLen of a small alphabet, worked on by every operation: *)
(* words, fields and occurrences are counted and cut consistently.            *)
EXTENDS Text
CONSTANTS MaxLen, Alphabet
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE Texts(n - 1) \cup {s \o c : s \in {x \in Texts(n - 1) : Len(x) = n - 1}, c \in Alphabet}
Pats == {"a", "b", " ", "ab", "aa"}
VARIABLE text
Init == text \in Texts(MaxLen)
Set(t) == Len(t) <= MaxLen /\ text' = t
Next ==
  \/ \E p \in Pats, n \in {-1, 0, 1, 2} : Set(StripL(text, p, n)) \/ Set(StripT(text, p, n)) \/ Set(Strip(text, p, n))
  \/ \E p \in Pats, q \in Pats \cup {""}, i \in 0..2, n \in {-1, 1} : Set(ChangeFrom(text, p, q, i, n))
  \/ \E n \in 0..MaxLen, c \in Alphabet : Set(JustL(text, n, c)) \/ Set(JustR(text, n, c)) \/ Set(Center(text, n, c))
  \/ \E f \in 0..3, n \in -1..3, d \in Alphabet : Set(RemoveWords(text, f, n, d))
  \/ \E d \in Alphabet : Set(AfterFirst(text, d))
Spec == Init /\ [][Next]_text
\* the words with what is between them are the text
WordsLaws == \A d \in Alphabet :
  LET W == WordsOf(text, d) IN
  /\ Len(W) = NumWords(text, d)
  /\ \A k \in 1..Len(W) : W[k] # "" /\ PosOf(W[k], d, 1) = 0
  /\ Change(text, d, "", 1, -1) = Cat(W)
  /\ Tokens(text, d) = W
  /\ FirstWord(text, d) = IF W = <<>> THEN "" ELSE W[1]
  /\ WordsOf(AfterFirst(text, d), d) = IF W = <<>> THEN <<>> ELSE Tail(W)
  /\ \A f \in 0..3 : WordsIn(text, f, 1, d) = {IF f < Len(W) THEN W[f + 1] ELSE ""}
  /\ \A f \in 0..3, n \in 1..3 :
       LET R == WordsOf(RemoveWords(text, f, n, d), d) IN
       /\ R = SubSeq(W, 1, IF f < Len(W) THEN f ELSE Len(W)) \o (IF f + n < Len(W) THEN SubSeq(W, f + n + 1, Len(W)) ELSE <<>>)
       /\ \A x \in WordsIn(text, f, n, d) : Len(WordsOf(x, d)) + Len(R) = Len(W)
StripLaws == \A p \in Pats :
  LET s == Strip(text, p, -1) IN
  /\ (s = "" \/ (~AtP(s, p, 1) /\ ~Ends(s, p)))
  /\ Strip(s, p, -1) = s
  /\ StripL(StripL(text, p, 1), p, 1) = StripL(text, p, 2)
ChangeLaws == \A p \in Pats, i \in 0..2 :
  /\ ChangeFrom(text, p, p, i, -1) = text
  /\ ChangeFrom(text, p, "", i, 0) = text
  /\ Len(ChangeFrom(text, p, "", i, 1)) \in {Len(text), Len(text) - Len(p)}
  /\ LET t == ChangeFrom(text, p, "|", i, -1) IN Len(text) - Len(t) = (Len(p) - 1) * Cardinality({k \in 1..Len(t) : Ch(t, k) = "|"})
JustLaws == \A n \in 0..(MaxLen + 2) :
  /\ Len(JustL(text, n, "a")) = n /\ Len(JustR(text, n, "a")) = n /\ Len(Center(text, n, "a")) = n
  /\ n >= Len(text) => Strip(JustL(text, n, "|"), "|", -1) = text /\ Strip(JustR(text, n, "|"), "|", -1) = text /\ Strip(Center(text, n, "|"), "|", -1) = text
  /\ \A i \in 0..3 : Len(SubString(text, i, n, "|")) = n
\* a pattern of the text itself matches all of it; a repeated character reaches as far as it can
MatchLaws ==
  /\ text # "" => Match(text, [i \in 1..Len(text) |-> <<Ch(text, i), "1">>]) = text
  /\ Match(text, << <<"", "*">> >>) = text
  /\ \A c \in Alphabet : LET m == Match(text, << <<c, "+">> >>) IN
       IF PosOf(text, c, 1) = 0 THEN m = "" ELSE LET i == PosOf(text, c, 1) IN m = Rep(c, Len(m)) /\ AtP(text, m, i) /\ (i + Len(m) > Len(text) \/ Ch(text, i + Len(m)) # c)
\* fields put together and taken apart
FieldLaws == \A d \in Alphabet : FieldsOf([k \in 1..Len(WordsOf(text, d)) |-> <<"", WordsOf(text, d)[k]>>], FALSE, TRUE) = WordsOf(text, d)
\* a line never gets too long, unless it has one word
WrapLaws == \A n \in 3..6 :
  LET W == WordsOf(text, " ")  t == Wrap(W, 1, "", "|", "", n)  L == Tokens(t, "|") IN
  /\ Cat([k \in 1..Len(L) |-> Cat(WordsOf(L[k], " "))]) = Cat(W)
  /\ \A k \in 1..Len(L) : Len(L[k]) <= n \/ NumWords(L[k], " ") = 1
ASSUME \A n \in {0, 1, 9, 10, 15, 16, 255, 256, 4095, 65536, 999999} :
  /\ X2D(D2X(ToString(n))) = ToString(n) /\ D2X(X2D(Digs(n, 16, HexLow))) = Digs(n, 16, Hex) /\ LeadNum(ToString(n)) = n
  /\ X2D("0x" \o Digs(n, 16, Hex) \o "g") = ToString(n) \o "g"
ASSUME /\ FloatText(<<1, 1234567, 89012345, 2>>, "nonzero", 5, 2, 0, "e", "neg", "left") = "1.2346e+02"
       /\ FloatText(<<-1, 1234567, 89012345, 2>>, "decimal", 5, 3, 13, "D", "neg", "right") = " -.12346D+003"
       /\ FloatText(<<1, 9999999, 0, -1>>, "zero", 5, 2, 0, "E", "pos", "left") = "+0.1000E+01"
       /\ SciText(<<1, 1000000, 0, 100>>, 8, 2, 2, FALSE) = "1.00e+100" /\ SciText(<<1, 1000000, 0, -5>>, 9, 2, 1, TRUE) = " +1.00e-5"
       /\ C2X(<<65, 255, 0>>) = "41FF00" /\ Printable(<<65, 0, 31, 127, 200>>) = "A^@^_^?<C8>"
       /\ A!IsDec("-.5") /\ ~A!IsDec(".") /\ IsSci("1e") /\ IsSci("-1.5D+3") /\ ~IsSci("1e2.5") /\ ~IsSci("e5")
=============================================================================
