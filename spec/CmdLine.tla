------------------------------- MODULE CmdLine -------------------------------
(* The command line processor of the geomatics programs: words may come from  *)
(* the command line and from option files, ranges of options can be ignored,  *)
(* deprecated ones replaced; help, verbose and debug are always there; values *)
(* are lists, lists in files, numbers, satellites.                            *)
EXTENDS Args
N == INSTANCE Names

-----------------------------------------------------------------------------
(* Text.                                                                      *)
RECURSIVE Lead(_, _)
Lead(s, c) == IF Len(s) > 0 /\ Ch(s, 1) = c THEN Lead(SubSeq(s, 2, Len(s)), c) ELSE s
\* the words of a line: separated by spaces, a quoted one whole, # to the end is a comment
RECURSIVE Tokens(_, _)
Tokens(s, quotes) ==
  LET t == Lead(s, " ") IN
  IF t = "" \/ Ch(t, 1) = "#" THEN <<>>
  ELSE IF quotes /\ Ch(t, 1) = "\""
  THEN LET q == PosOf(t, "\"", 2) IN <<SubSeq(t, 2, q - 1)>> \o Tokens(SubSeq(t, q + 1, Len(t)), quotes)
  ELSE LET q == PosOf(t, " ", 1) IN IF q = 0 THEN <<t>> ELSE <<SubSeq(t, 1, q - 1)>> \o Tokens(SubSeq(t, q, Len(t)), quotes)
RECURSIVE LineTokens(_, _)
LineTokens(ls, quotes) == IF ls = <<>> THEN <<>> ELSE Tokens(Head(ls), quotes) \o LineTokens(Tail(ls), quotes)
RECURSIVE Fields(_)
Fields(s) ==      \* of a list with commas; empty ones do not count
  LET t == Lead(s, ",") IN
  IF t = "" THEN <<>>
  ELSE LET q == PosOf(t, ",", 1) IN IF q = 0 THEN <<t>> ELSE <<SubSeq(t, 1, q - 1)>> \o Fields(SubSeq(t, q, Len(t)))
Val1(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + Val1(Last(s))
ToInt(s) == IF Ch(s, 1) = "-" THEN -ToNat(Unsigned(s)) ELSE ToNat(Unsigned(s))
RECURSIVE Leading(_)
Leading(s) == IF s # "" /\ Ch(s, 1) \in Digits THEN Ch(s, 1) \o Leading(SubSeq(s, 2, Len(s))) ELSE ""
ExpAt(s) == {i \in 1..Len(s) : Ch(s, i) \in {"E", "e", "D", "d"}}
IsSci(s) == IF ExpAt(s) = {} THEN IsDec(s)
            ELSE LET p == CHOOSE i \in ExpAt(s) : \A j \in ExpAt(s) : i <= j
                     x == SubSeq(s, p + 1, Len(s)) IN IsDec(SubSeq(s, 1, p - 1)) /\ (x = "" \/ IsNum(x))

-----------------------------------------------------------------------------
\* the numbers (in thousandths) some texts stand for
Milli == ("1.5" :> 1500) @@ ("-2" :> -2000) @@ ("3e2" :> 300000) @@ ("25D-1" :> 2500) @@ ("+7." :> 7000) @@ (".125" :> 125) @@ ("4E" :> 4000) @@ ("0" :> 0)
      @@ ("7" :> 7000) @@ ("-5" :> -5000) @@ ("5" :> 5000) @@ ("12" :> 12000) @@ ("-7" :> -7000) @@ ("007" :> 7000)
(* The declaration: options [s, l, t, rep, req, expand, toggle, def] of types *)
(* bool, int, ints, dbl, str, strs, sat, sats, and                            *)
(* d = [opts, noarg, witharg, on, off, old, files, lists, one]                *)
(*   noarg, witharg: words ignored (the second with the next word); on, off:  *)
(*   words that start and stop ignoring; old: <<word, its replacement>>;      *)
(*   files, lists: <<name, lines>>; one: at least one word must be given      *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
DeclOK(d) ==
  /\ \A i \in 1..Len(d.opts) :
       /\ \A s \in {d.noarg, d.witharg, d.on, d.off} : ~InSeq("--" \o d.opts[i].l, s)
       /\ \A j \in 1..(i - 1) : d.opts[i].l # d.opts[j].l /\ ~(d.opts[i].s # "" /\ d.opts[i].s = d.opts[j].s)
  /\ \A i \in 1..Len(d.old) : \E j \in 1..Len(d.opts) : d.old[i][2] \in {"--" \o d.opts[j].l, "-" \o d.opts[j].s}
Get(s, x) == s[CHOOSE i \in 1..Len(s) : s[i][1] = x][2]
Known(s, x) == \E i \in 1..Len(s) : s[i][1] = x

(* Taking the words: [args, ign, once, file, help, verb, debug].              *)
P0 == [args |-> <<>>, ign |-> FALSE, once |-> FALSE, file |-> FALSE, help |-> FALSE, verb |-> FALSE, debug |-> -1]
IsDebug(w) == Starts(w, "-d") \/ Starts(w, "--debug")
DebugOf(w) == LET x == IF Starts(w, "-d") THEN SubSeq(w, 3, Len(w)) ELSE SubSeq(w, 8, Len(w)) IN ToNat(Leading(x))
RECURSIVE Word(_, _, _), Words(_, _, _, _), File(_, _, _)
Word(d, p, w) ==
  IF w = "" THEN p
  ELSE IF p.once THEN [p EXCEPT !.once = FALSE]
  ELSE IF InSeq(w, d.noarg) THEN p
  ELSE IF InSeq(w, d.witharg) THEN [p EXCEPT !.once = TRUE]
  ELSE IF InSeq(w, d.on) THEN [p EXCEPT !.ign = TRUE]
  ELSE IF InSeq(w, d.off) THEN [p EXCEPT !.ign = FALSE]
  ELSE IF p.ign THEN p
  ELSE IF w \in {"--file", "-f"} THEN [p EXCEPT !.file = TRUE]
  ELSE IF p.file THEN File(d, [p EXCEPT !.file = FALSE], w)
  ELSE IF Starts(w, "-f") THEN File(d, p, SubSeq(w, 3, Len(w)))
  ELSE IF w \in {"-h", "--help"} THEN [p EXCEPT !.help = TRUE]
  ELSE IF IsDebug(w) THEN [p EXCEPT !.debug = DebugOf(w), !.verb = @ \/ DebugOf(w) <= 7]
  ELSE IF w \in {"-v", "--verbose"} THEN [p EXCEPT !.verb = TRUE]
  ELSE IF Known(d.old, w) THEN [p EXCEPT !.args = Append(@, Get(d.old, w))]
  ELSE [p EXCEPT !.args = Append(@, w)]
\* in a file the name after -f is taken at once
Words(d, p, ws, again) ==
  IF ws = <<>> THEN p
  ELSE IF again THEN Words(d, Word(d, p, "-f" \o Head(ws)), Tail(ws), FALSE)
  ELSE IF Head(ws) \in {"--file", "-f"} THEN Words(d, p, Tail(ws), TRUE)
  ELSE Words(d, Word(d, p, Head(ws)), Tail(ws), FALSE)
File(d, p, name) ==
  IF ~Known(d.files, name) THEN p
  ELSE [Words(d, p, LineTokens(Get(d.files, name), TRUE), FALSE) EXCEPT !.ign = FALSE]
RECURSIVE Pre(_, _, _)
Pre(d, p, ws) == IF ws = <<>> THEN p ELSE Pre(d, Word(d, p, Head(ws)), Tail(ws))

(* Matching: the values of each option, the words unknown, the errors.        *)
Match(d, w) == {j \in 1..Len(d.opts) : (d.opts[j].s # "" /\ w = "-" \o d.opts[j].s) \/ w = "--" \o d.opts[j].l}
RECURSIVE Assign(_, _, _, _)
Assign(d, a, i, r) ==
  IF i > Len(a) THEN r
  ELSE LET S == Match(d, a[i]) IN
    IF S = {} THEN Assign(d, a, i + 1, [r EXCEPT !.unrec = Append(@, a[i])])
    ELSE LET j == CHOOSE j \in S : TRUE IN
      IF d.opts[j].t = "bool" THEN Assign(d, a, i + 1, [r EXCEPT !.vals[j] = Append(@, "T")])
      ELSE IF i = Len(a) \/ (i < Len(a) /\ Starts(a[i + 1], "--")) THEN Assign(d, a, i + 1, [r EXCEPT !.err = @ + 1])
      ELSE Assign(d, a, i + 2, [r EXCEPT !.vals[j] = Append(@, a[i + 1])])
Special(d, p, vals) ==
  [j \in 1..Len(d.opts) |->
     CASE p.help /\ d.opts[j].l = "help" -> Append(vals[j], "T")
       [] p.verb /\ d.opts[j].l = "verbose" -> Append(vals[j], "T")
       [] p.debug > -1 /\ d.opts[j].l = "debug" -> Append(vals[j], ToString(p.debug))
       [] OTHER -> vals[j]]
(* The values: lists of values and files of values written out.               *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Item(d, f) == IF Ch(f, 1) = "@" THEN (IF Known(d.lists, SubSeq(f, 2, Len(f))) THEN LineTokens(Get(d.lists, SubSeq(f, 2, Len(f))), FALSE) ELSE <<>>) ELSE <<f>>
FieldsOf(vs) == Flat([i \in 1..Len(vs) |-> Fields(vs[i])])
Vector(o) == o.t \in {"ints", "strs", "sats"}
Values(d, o, vs) == IF Vector(o) /\ o.expand THEN Flat([i \in 1..Len(FieldsOf(vs)) |-> Item(d, FieldsOf(vs)[i])]) ELSE vs
Missing(d, o, vs) == Vector(o) /\ o.expand /\ \E i \in 1..Len(FieldsOf(vs)) : Ch(FieldsOf(vs)[i], 1) = "@" /\ ~Known(d.lists, SubSeq(FieldsOf(vs)[i], 2, Len(FieldsOf(vs)[i])))
\* satellites: a system letter or none, and a number
SatC(s) == IF Ch(s, 1) \in Digits THEN "" ELSE Ch(s, 1)
SatOK(s) == SatC(s) = "" \/ N!OfChar("rinex", N!Cap(SatC(s))) # ""
SatOf(s) == N!Parsed("rinex", SatC(s), ToNat(Leading(IF SatC(s) = "" THEN s ELSE SubSeq(s, 2, Len(s)))))
\* what an option holds afterwards
Held(d, o, vs0) ==
  LET vs == Values(d, o, vs0) IN
  IF vs0 = <<>> THEN o.def
  ELSE CASE o.t = "bool" -> (IF o.toggle THEN ~o.def ELSE TRUE)
         [] o.t = "int" -> (IF IsNum(vs[1]) THEN ToInt(vs[1]) ELSE o.def)
         [] o.t = "dbl" -> (IF IsSci(vs[1]) THEN Milli[vs[1]] ELSE o.def)
         [] o.t = "str" -> vs[1]
         [] o.t = "strs" -> o.def \o vs
         [] o.t = "ints" -> o.def \o LET g == SelectSeq(vs, IsNum) IN [i \in 1..Len(g) |-> ToInt(g[i])]
         [] o.t = "sat" -> SatOf(vs[1])
         [] o.t = "sats" -> o.def \o [i \in 1..Len(vs) |-> SatOf(vs[i])]
Wrong(d, o, vs0) ==    \* errors in the values
  LET vs == Values(d, o, vs0) IN
  IF vs0 = <<>> THEN 0
  ELSE (IF Missing(d, o, vs0) THEN 1 ELSE 0) +
       CASE o.t = "int" -> (IF IsNum(vs[1]) THEN 0 ELSE 1)
         [] o.t = "dbl" -> (IF IsSci(vs[1]) THEN 0 ELSE 1)
         [] o.t = "ints" -> Cardinality({i \in 1..Len(vs) : ~IsNum(vs[i])})
         [] OTHER -> 0
BadSat(d, o, vs) == vs # <<>> /\ ((o.t = "sat" /\ ~SatOK(vs[1])) \/ (o.t = "sats" /\ \E i \in 1..Len(Values(d, o, vs)) : ~SatOK(Values(d, o, vs)[i])))
\* everything a program gets: [x, ret, vals, unrec, err, held]
Process(d, ws) ==
  LET p == Pre(d, P0, ws)
      r == Assign(d, p.args, 1, [vals |-> [j \in 1..Len(d.opts) |-> <<>>], unrec |-> <<>>, err |-> 0])
      help == p.help \/ (d.one /\ p.args = <<>>)
      v == Special(d, [p EXCEPT !.help = help], r.vals)
      e1 == Sum([j \in 1..Len(d.opts) |-> (IF d.opts[j].req /\ v[j] = <<>> THEN 1 ELSE 0) + (IF ~d.opts[j].rep /\ Len(v[j]) > 1 THEN 1 ELSE 0)])
      e2 == Sum([j \in 1..Len(d.opts) |-> Wrong(d, d.opts[j], v[j])])
      bad == \E j \in 1..Len(d.opts) : BadSat(d, d.opts[j], v[j]) IN
  IF bad THEN [bad |-> TRUE] ELSE
  [bad |-> FALSE,
   ret |-> IF help THEN 1 ELSE IF r.err + e1 + e2 > 0 THEN -1 ELSE 0,
   count |-> [j \in 1..Len(d.opts) |-> Len(v[j])], unrec |-> r.unrec, err |-> r.err + e1 + e2, help |-> help,
   held |-> [j \in 1..Len(d.opts) |-> Held(d, d.opts[j], v[j])]]
=============================================================================
