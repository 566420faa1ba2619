----------------------------- MODULE NavFiltTrace ----------------------------
(* Chains of the real filters fed with made messages, through the manager or, *)
(* one filter, with lists of messages.                                        *)
EXTENDS NavFilt, TraceBase, Bitwise, SequencesExt
L == INSTANCE LNav
VARIABLES fs, sts, done
Base == 2000                \* the week that times are counted from

-----------------------------------------------------------------------------
(* Words and bits: a message is a sequence of words of ws bits, bit 1 first.   *)
BitOf(w, ws, i) == (w[((i - 1) \div ws) + 1] \div (2 ^ (ws - 1 - ((i - 1) % ws)))) % 2
RECURSIVE NumAt(_, _, _, _)
NumAt(w, ws, s, n) == IF n = 0 THEN 0 ELSE 2 * NumAt(w, ws, s, n - 1) + BitOf(w, ws, s + n - 1)
N(w, s, n) == NumAt(w, 30, s, n)
Not30(w) == [i \in 1..Len(w) |-> 1073741823 - w[i]]

\* the check of 24 bits over a whole civil message
Poly == 8801531
CrcStep(r, b) == LET top == (r \div 8388608 + b) % 2  x == (r * 2) % 16777216 IN IF top = 1 THEN x ^^ Poly ELSE x
Crc(w) == FoldLeft(CrcStep, 0, [i \in 1..300 |-> BitOf(w, 30, i)])
\* the message has nothing in it: no bits, or those of a default message
AltBits(w) == \A i \in 39..276 : BitOf(w, 30, i) = (IF i % 2 = 1 THEN 0 ELSE 1)
CBlank(w) == (\A i \in 39..276 : BitOf(w, 30, i) = 0) \/ AltBits(w)
CTow(w) == N(w, 1, 8) = 139 /\ N(w, 21, 17) < 100800 /\ N(w, 15, 6) \in ({0} \cup (10..15) \cup (30..39))
\* the second civil message says when and by whom it was sent
C2OK(m) ==
  LET at == 7200 * N(m.w, 23, 8) + 18 * N(m.w, 1, 9) - 18
      sow == IF at < 0 THEN at + 604800 ELSE at IN
  /\ sow = m.t % 604800 /\ N(m.w, 10, 13) = Base + (m.t \div 604800)
  /\ N(m.w, 610, 8) = m.prn /\ N(m.w, 618, 6) \in 1..6

(* Legacy words.                                                               *)
LBlank(w) ==
  LET data(i) == w[i] \div 64 IN
  (\A i \in 1..10 : w[i] = 0)
  \/ (L!SfId(w[2]) \in {4, 5} /\ (w[3] \div 64) % (2 ^ 16) = 43690 /\ \A i \in 4..10 : data(i) = 11184810)
TlmHow(w) == w[1] \div (2 ^ 22) = 139 /\ w[2] % 4 = 0 /\ w[2] \div (2 ^ 13) < 100800 /\ L!SfId(w[2]) \in 1..5
\* turned upright, and the data of each word after a word that ends in one
RECURSIVE Straight(_, _)
Straight(w, i) == IF i > 10 THEN w
  ELSE Straight(IF w[i - 1] % 2 = 1 THEN [w EXCEPT ![i] = (16777215 - (w[i] \div 64)) * 64 + (w[i] % 64)] ELSE w, i + 1)
LCook(w0) ==
  LET w == IF w0[1] \div (2 ^ 22) = 116 THEN Not30(w0) ELSE w0
  IN  IF w[1] \div (2 ^ 22) = 139 THEN Straight(w, 2) ELSE w

TTest(f, m) ==
  CASE f.k = "parity" -> (IF f.fmt = "lnav" THEN L!SubframeOK(m.w, TRUE) ELSE Crc(m.w) = 0)
    [] f.k = "empty" -> (IF f.fmt = "lnav" THEN ~LBlank(m.w) ELSE ~CBlank(m.w))
    [] f.k = "tow" -> (IF f.fmt = "lnav" THEN TlmHow(m.w) ELSE CTow(m.w))
    [] f.k = "sanity" -> C2OK(m)
    [] OTHER -> TRUE
TChange(fmt, w) == IF fmt = "lnav" THEN LCook(w) ELSE IF N(w, 1, 8) = 139 THEN w ELSE Not30(w)
TSlot(w) == IF L!SfId(w[2]) \in 1..3 THEN L!SfId(w[2]) ELSE 0
TFits(a, b, c) == /\ L!Tow(b[2]) = L!Tow(a[2]) + 1 /\ L!Tow(c[2]) = L!Tow(b[2]) + 1
                  /\ a[8] \div (2 ^ 22) = b[3] \div (2 ^ 22) /\ a[8] \div (2 ^ 22) = c[10] \div (2 ^ 22)

-----------------------------------------------------------------------------
TInit == l = 1 /\ fs = <<>> /\ sts = <<>> /\ done = FALSE
Idw(s) == {<<s[i].id, s[i].w>> : i \in 1..Len(s)}
Ids(s) == {s[i].id : i \in 1..Len(s)}
\* what came out: the same messages with the same words; after an order filter in order of time
Outs(o, r) == /\ Len(o) = Len(r) /\ Idw(o) = Idw(r)
OrderedAfter == fs # <<>> /\ fs[Len(fs)].k = "order"
InTime(o) == \A i \in 1..(Len(o) - 1) : o[i].t <= o[i + 1].t
Known(rej) == [k \in 1..Len(fs) |-> Range(rej[k])]
Rejs(e, r) == \A k \in 1..Len(fs) : Len(e.rej[k]) = Len(r.rejs[k]) /\ Range(e.rej[k]) = Ids(r.rejs[k])
Signalled(e, r) == Range(e.set) = {k \in 1..Len(fs) : r.rejs[k] # <<>>}
Fulls(e, r) == \A k \in 1..Len(fs) : fs[k].k = "eph" =>
  e.full[k] = [i \in 1..Len(r.sts[k].full) |->
                LET st == r.sts[k]  p == st.eph[CHOOSE j \in At(st.eph, st.full[i]) : TRUE][2] IN <<p[1][1].id, p[2][1].id, p[3][1].id>>]
Held(s) == LET RECURSIVE H(_)  H(k) == IF k > Len(s) THEN 0 ELSE Len(s[k].held) + H(k + 1) IN H(1)
CallOK(e, r, o) == Outs(e.out, r.out) /\ Rejs(e, r) /\ (o \/ Signalled(e, r)) /\ Fulls(e, r) /\ (OrderedAfter => InTime(e.out))

New == Is("new") /\ fs' = <<>> /\ sts' = <<>> /\ done' = FALSE
ChainEv == Is("chain") /\ fs' = Ev.fs /\ sts' = [k \in 1..Len(Ev.fs) |-> Held0] /\ done' = FALSE
           /\ Chk(Ev.depth = Depth(Ev.fs)) /\ Chk(Len(Ev.depths) = Len(Ev.fs))
           /\ Chk(\A k \in 1..Len(Ev.fs) : Ev.depths[k] = Depth(<<Ev.fs[k]>>) - 1)
GiveEv == Is("give") /\ LET r == Give(fs, sts, Ev.in, Known(Ev.rej)) IN
          Chk(CallOK(Ev, r, FALSE)) /\ sts' = r.sts /\ UNCHANGED <<fs, done>>
EndEv == Is("end") /\ LET r == Finish(fs, sts, Known(Ev.rej)) IN
         Chk(CallOK(Ev, r, FALSE)) /\ sts' = r.sts /\ done' = TRUE /\ UNCHANGED fs
\* the same bits however they are kept
BitsEv == Is("bits") /\ UNCHANGED <<fs, sts, done>>
  /\ Chk(LET a == Ev.s  n == Ev.n  hi == IF n > 16 THEN n - 16 ELSE 0
             want == << NumAt(Ev.w, Ev.ws, a, hi), NumAt(Ev.w, Ev.ws, a + hi, n - hi) >> IN
         \A i \in 1..Len(Ev.got) : Ev.got[i] = want)
TNext == More /\ l' = l + 1 /\ (New \/ ChainEv \/ GiveEv \/ EndEv \/ BitsEv)
TSpec == TInit /\ [][TNext]_<<l, fs, sts, done>>
=============================================================================
