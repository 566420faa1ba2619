------------------------------- MODULE FileFind ------------------------------
(* Files that are named by a specification.  A specification is a sequence of *)
(* levels (directories, then the file), a level a sequence of fixed texts and *)
(* fields of a width; values and an instant give a file its name, a name      *)
(* gives back the values and the instant down to the grain of the fields.     *)
(* Finding is going down the levels among what is there; what it finds is     *)
(* defined without any order of looking.                                      *)
EXTENDS TimeText, SequencesExt
T == INSTANCE Text

\* an element: fixed text f, or (c # "") a field of kind c, width w (0 none given) and fill z
IsFld(e) == e.c # ""
Wid(e) == IF ~IsFld(e) THEN Len(e.f) ELSE IF e.c = "Y" THEN 4 ELSE IF e.w = 0 THEN 1 ELSE e.w
TimeKinds == {"Y","y","m","d","H","M","S","F","w","j"}
Kind(c) == IF c = "y" THEN "Y" ELSE c
\* the order in which kinds are compared
KindOrder == <<"n","r","p","t","I","v","k","x","Y","m","d","H","M","S","F","w","j">>
Sub(s, i, n) == IF n = 0 THEN "" ELSE SubSeq(s, i, i + n - 1)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

ElText(e) == IF IsFld(e) THEN "%" \o (IF e.z = 1 THEN "0" ELSE "") \o (IF e.w = 0 THEN "" ELSE ToString(e.w)) \o e.c ELSE e.f
LevelText(lv) == Cat([i \in 1..Len(lv) |-> ElText(lv[i])])
Slash == [f |-> "/", c |-> "", w |-> 0, z |-> 0]
RECURSIVE Flat(_)
Flat(sp) == IF Len(sp) = 1 THEN sp[1] ELSE sp[1] \o <<Slash>> \o Flat(Tail(sp))
SpecText(sp) == LevelText(Flat(sp))
Path(p) == FoldLeft(LAMBDA a, b : a \o "/" \o b, p[1], Tail(p))

Width(lv) == FoldLeft(LAMBDA a, e : a + Wid(e), 0, lv)
Off(lv, i) == Width(SubSeq(lv, 1, i - 1))          \* where an element begins
Part(lv, s, i) == Sub(s, Off(lv, i) + 1, Wid(lv[i]))
Kinds(lv) == {Kind(lv[i].c) : i \in {i \in 1..Len(lv) : IsFld(lv[i])}}
SpecKinds(sp) == UNION {Kinds(sp[k]) : k \in 1..Len(sp)}
Search(lv) == Cat([i \in 1..Len(lv) |-> IF IsFld(lv[i]) THEN Rep("?", Wid(lv[i])) ELSE lv[i].f])
FirstOf(lv, s, k) == Part(lv, s, CHOOSE i \in 1..Len(lv) : IsFld(lv[i]) /\ Kind(lv[i].c) = k /\ \A j \in 1..i-1 : ~(IsFld(lv[j]) /\ Kind(lv[j].c) = k))

\* ---- names ------------------------------------------------------------------
Has1(vs, k) == \E i \in 1..Len(vs) : vs[i][1] = k
Val(vs, k) == vs[CHOOSE i \in 1..Len(vs) : vs[i][1] = k][2]
ElName(e, vs, t) ==
  IF ~IsFld(e) THEN e.f
  ELSE IF Has1(vs, Kind(e.c)) THEN T!JustR(Val(vs, Kind(e.c)), Wid(e), IF e.c = "x" THEN " " ELSE "0")
  ELSE Fill(Field(t, "", e.c), IF e.z = 1 THEN "0" ELSE "", Wid(e))
Name(lv, vs, t) == Cat([i \in 1..Len(lv) |-> ElName(lv[i], vs, t)])

\* ---- what a name says ---------------------------------------------------------
DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |-> CHOOSE d \in 0..9 : ToString(d) = c]
IsDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN DigitOf
RECURSIVE Num(_)
Num(s) == IF Len(s) = 0 THEN 0 ELSE Num(Sub(s, 1, Len(s) - 1)) * 10 + DigitOf[SubSeq(s, Len(s), Len(s))]
\* the time fields of a name, the last of a kind in force
TimeVals(lv, s) == [ c \in {lv[i].c : i \in {i \in 1..Len(lv) : lv[i].c \in TimeKinds}} |->
  Num(Part(lv, s, CHOOSE i \in 1..Len(lv) : lv[i].c = c /\ \A j \in i+1..Len(lv) : lv[j].c # c)) ]
Or(V, c, d) == IF c \in DOMAIN V THEN V[c] ELSE d
InstantOf(V) ==
  LET y == IF "Y" \in DOMAIN V THEN V["Y"] ELSE IF "y" \in DOMAIN V THEN V["y"] + (IF V["y"] < 69 THEN 2000 ELSE 1900) ELSE 0
      dy == IF "F" \in DOMAIN V THEN WeekDay("GPS", V["F"], Or(V, "w", 0))
            ELSE IF y = 0 THEN 0
            ELSE IF "j" \in DOMAIN V THEN DayNo(y, 1, 1) + V["j"] - 1
            ELSE DayNo(y, Or(V, "m", 1), Or(V, "d", 1)) IN
  <<dy, Or(V, "H", 0) * 3600 + Or(V, "M", 0) * 60 + Or(V, "S", 0), 0>>
TimeIn(lv, s) == InstantOf(TimeVals(lv, s))
\* an instant down to the grain of the fields
Trunc(lv, t) ==
  LET C == {lv[i].c : i \in {i \in 1..Len(lv) : lv[i].c \in TimeKinds}} IN
  InstantOf([c \in C |-> Num(Field(t, "", c))])
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Lt(a, b) == Le(a, b) /\ a # b

\* ---- finding ------------------------------------------------------------------
Loose == {"x", "t", "n"}                       \* fields of any characters
MatchEl(e, s, any) == IF ~IsFld(e) THEN s = e.f ELSE any \/ e.c \in Loose \/ IsDigits(s)
MatchLevel(lv, s, any) == Len(s) = Width(lv) /\ \A i \in 1..Len(lv) : MatchEl(lv[i], Part(lv, s, i), any)
Match(sp, p, any) == Len(p) = Len(sp) /\ \A k \in 1..Len(sp) : MatchLevel(sp[k], p[k], any)
\* a period that begins before the end and does not end before the beginning
InTime(lv, t, from, to) ==
  LET a == Trunc(lv, from)  b == Trunc(lv, to) IN
  Kinds(lv) \cap TimeKinds = {} \/ (Le(a, t) /\ (Lt(t, to) \/ (t = b /\ a = b)))
Wanted(lv, s, filt) == \A i \in 1..Len(filt) :
  filt[i][1] \in Kinds(lv) => FirstOf(lv, s, filt[i][1]) \in {filt[i][2][j] : j \in 1..Len(filt[i][2])}
Find(tr, sp, from, to, filt) ==
  LET lv == Flat(sp) IN
  { p \in tr : /\ Match(sp, p, FALSE)
               /\ InTime(lv, TimeIn(lv, Path(p)), from, to)
               /\ Wanted(lv, Path(p), filt) }
\* fields without a width: of text, the text; of a selection, as wide as the value given
WithText(sp, text, sel) == [k \in 1..Len(sp) |-> [i \in 1..Len(sp[k]) |->
  LET e == sp[k][i] IN
  IF e.w # 0 \/ ~IsFld(e) THEN e
  ELSE IF e.c = "x" THEN [f |-> text, c |-> "", w |-> 0, z |-> 0]
  ELSE IF e.c = "t" THEN [e EXCEPT !.w = IF sel = "" THEN 1 ELSE Len(sel)] ELSE e]]

\* ---- hunting --------------------------------------------------------------------
ChunkOf(t, chunk) ==
  CASE chunk = "WEEK" -> <<t[1] - Dow(t), 0, 0>>
    [] chunk = "DAY" -> <<t[1], 0, 0>>
    [] chunk = "HOUR" -> <<t[1], t[2] - (t[2] % 3600), 0>>
    [] OTHER -> <<t[1], t[2] - (t[2] % 60), 0>>
WantedH(sp, p, filt) == \A i \in 1..Len(filt), k \in 1..Len(sp) :
  filt[i][1] \in Kinds(sp[k]) => LET v == FirstOf(sp[k], p[k], filt[i][1]) IN
     v \in {T!JustR(filt[i][2][j], Len(v), "0") : j \in 1..Len(filt[i][2])}
Hunt(tr, sp, from, to, chunk, filt) ==
  LET lv == Flat(sp) IN
  { p \in tr : /\ Match(sp, p, TRUE)
               /\ LET t == TimeIn(lv, Path(p)) IN Le(ChunkOf(from, chunk), t) /\ Le(t, to)
               /\ WantedH(sp, p, filt) }

\* ---- order ------------------------------------------------------------------------
Chars == " !#$&'()+,-.0123456789:;<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Chars, i, i) : i \in 1..Len(Chars)} |-> CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c]
RECURSIVE SLess(_, _, _)
SLess(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == Code[SubSeq(a, i, i)]  y == Code[SubSeq(b, i, i)] IN x < y \/ (x = y /\ SLess(a, b, i + 1))
\* the places of the fields, by kind, then as they stand
RECURSIVE KeysFrom(_, _)
KeysFrom(lv, k) ==
  IF k > Len(KindOrder) THEN <<>>
  ELSE SelectSeq([i \in 1..Len(lv) |-> IF IsFld(lv[i]) /\ Kind(lv[i].c) = KindOrder[k] THEN i ELSE 0], LAMBDA x : x # 0) \o KeysFrom(lv, k + 1)
Keys(lv) == KeysFrom(lv, 1)
\* the file of a path
FileOf(s) == LET C == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"} IN IF C = {} THEN s ELSE LET m == CHOOSE i \in C : \A j \in C : j <= i IN Sub(s, m + 1, Len(s) - m)
KeyVals(lv, s) == LET K == Keys(lv) IN [i \in 1..Len(K) |-> Part(lv, s, K[i])]
RECURSIVE KLess(_, _, _)
KLess(a, b, i) == IF i > Len(a) THEN FALSE ELSE SLess(a[i], b[i], 1) \/ (a[i] = b[i] /\ KLess(a, b, i + 1))
Before(lv, a, b, dir) ==
  LET x == KeyVals(lv, FileOf(a))  y == KeyVals(lv, FileOf(b)) IN IF dir = 1 THEN KLess(x, y, 1) ELSE KLess(y, x, 1)
\* in order, those of one place as they came
RECURSIVE Insert(_, _, _, _)
Insert(lv, l, x, dir) ==
  IF l = <<>> \/ ~Before(lv, x, l[Len(l)], dir) THEN Append(l, x)
  ELSE Append(Insert(lv, SubSeq(l, 1, Len(l) - 1), x, dir), l[Len(l)])
InOrder(lv, l, dir) == FoldLeft(LAMBDA a, x : Insert(lv, a, x, dir), <<>>, l)
\* of files that differ in the version only the latest stays
VersionAt(lv) == CHOOSE i \in 1..Len(lv) : lv[i].c = "v" /\ \A j \in 1..i-1 : lv[j].c # "v"
Bare(lv, s) == LET f == FileOf(s)  i == VersionAt(lv) IN Sub(f, 1, Off(lv, i)) \o Sub(f, Off(lv, i) + Wid(lv[i]) + 1, Len(f) - Off(lv, i) - Wid(lv[i]))
Version(lv, s) == Part(lv, FileOf(s), VersionAt(lv))
Latest(lv, l) == IF "v" \notin Kinds(lv) THEN l
  ELSE SelectSeq(l, LAMBDA a : \A j \in 1..Len(l) : Bare(lv, l[j]) = Bare(lv, a) => ~SLess(Version(lv, a), Version(lv, l[j]), 1))
SortList(lv, l, dir) == Latest(lv, InOrder(lv, l, dir))
=============================================================================
