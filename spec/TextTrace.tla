------------------------------ MODULE TextTrace ------------------------------
(* The text as the code works on it: each operation gives the text the        *)
(* specification gives, each question its answer and no change.               *)
EXTENDS Text, TraceBase
VARIABLE text
vars == <<l, text>>
TInit == l = 1 /\ text = ""
S(i) == Ev.s[i]
N(i) == Ev.n[i]
Op(f) ==
  CASE f = "stripL" -> StripL(text, S(1), N(1))
    [] f = "stripT" -> StripT(text, S(1), N(1))
    [] f = "strip" -> Strip(text, S(1), N(1))
    [] f = "translate" -> Translate(text, S(1), S(2), S(3))
    [] f = "change" -> ChangeFrom(text, S(1), S(2), N(1), N(2))
    [] f = "replaceAll" -> ChangeFrom(text, S(1), S(2), 0, -1)
    [] f = "left" -> JustL(text, N(1), S(1))
    [] f = "right" -> JustR(text, N(1), S(1))
    [] f = "center" -> Center(text, N(1), S(1))
    [] f = "subString" -> SubString(text, N(1), N(2), S(1))
    [] f = "removeWords" -> RemoveWords(text, N(1), N(2), S(1))
    [] f = "stripFirst" -> AfterFirst(text, S(1))
    [] f = "upper" -> ToUpper(text)
    [] f = "lower" -> ToLower(text)
Ask(f) ==
  CASE f = "firstWord" -> Ev.r = FirstWord(text, S(1))
    [] f = "numWords" -> Ev.r = NumWords(text, S(1))
    [] f = "words" -> Ev.r \in WordsIn(text, N(1), N(2), S(1))
    [] f = "split" -> Ev.r = WordsOf(text, S(1))
    [] f = "tokens" -> Ev.r = Clean(Tokens(text, S(1)), N(1) = 1, N(2) = 1)
    [] f = "isDigit" -> Ev.r = (A!IsNum(text))
    [] f = "isDecimal" -> Ev.r = (A!IsDec(text))
    [] f = "isScientific" -> Ev.r = (IsSci(text))
    [] f = "isAlpha" -> Ev.r = (A!IsAlpha(text))
    [] f = "asInt" -> Ev.r = LeadNum(text)
    [] f = "wrap" -> Ev.r = Wrap(Ev.w, 1, S(3), S(1), S(2), N(1))
TNext == More /\ l' = l + 1 /\
  \/ Is("new") /\ text' = ""
  \/ Is("set") /\ text' = Ev.t
  \/ Is("op") /\ Chk(Ev.x = "ok" /\ Ev.t = Op(Ev.fn) /\ Ev.c = Ev.t) /\ Chk(Ev.fn = "stripFirst" => Ev.r = FirstWord(text, S(1))) /\ text' = Ev.t
  \/ Is("ask") /\ Chk(Ev.x = "ok" /\ Ask(Ev.fn)) /\ UNCHANGED text
  \* fields between delimiters, with quotes
  \/ Is("fields") /\ Chk(Ev.x = "ok" /\ Ev.t = Joined(Ev.f, Ev.d, 1) /\ Ev.r = FieldsOf(Ev.f, Ev.trim, Ev.ign)) /\ UNCHANGED text
  \/ Is("match") /\ Chk(Ev.x = "ok" /\ Ev.r = Match(text, Ev.p) /\ Ev.like = (Ev.r # "")) /\ UNCHANGED text
  \/ Is("hex") /\ Chk(Ev.x = "ok" /\ Ev.r = (CASE Ev.fn = "d2x" -> D2X(Ev.t) [] Ev.fn = "x2d" -> X2D(Ev.t) [] Ev.fn = "x2uint" -> ToString(HexNum(Ev.t))
                                            [] Ev.fn = "int2x" -> Digs(LeadNum(Ev.t), 16, HexLow))) /\ UNCHANGED text
  \/ Is("chars") /\ Chk(Ev.x = "ok" /\ Ev.r = C2X(Ev.b) /\ Ev.p = Printable(Ev.b)) /\ UNCHANGED text
  \* numbers: the text, and what it reads back as
  \/ Is("float") /\ Chk(Ev.x = "ok" /\ Ev.t = FloatText(Ev.v, Ev.lead, Ev.nm, Ev.ne, Ev.w, Ev.ch, Ev.sg, Ev.al)
                        /\ Ev.same /\ Ev.back = KeepE(Ev.v, IF Ev.lead = "zero" THEN Ev.nm - 1 ELSE Ev.nm)) /\ UNCHANGED text
  \/ Is("sci") /\ Chk(Ev.x = "ok" /\ Ev.t = SciText(Ev.v, Ev.w, Ev.p, Ev.ne, Ev.plus) /\ Ev.back = KeepE(Ev.v, Ev.p + 1)) /\ UNCHANGED text
  \/ Is("fortran") /\ Chk(Ev.x = "ok" /\ Ev.t = FloatText(Ev.v, "decimal", Ev.nm, Ev.ne, 0, "D", "space", "left") /\ Ev.back = KeepE(Ev.v, Ev.nm)) /\ UNCHANGED text
  \/ Is("fixed") /\ Chk(Ev.x = "ok" /\ Ev.t = DText(Ev.v, Ev.d) /\ RoundD(Ev.back, 8) = RoundD(Ev.v, Ev.d)) /\ UNCHANGED text
TSpec == TInit /\ [][TNext]_vars
=============================================================================
