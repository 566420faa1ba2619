------------------------------- MODULE Obs2MC -------------------------------
(* Continuation lines: a reader that works line by line rebuilds any list; the *)
(* century window covers every epoch within fifty years of the first.          *)
EXTENDS Obs2, FiniteSets
CONSTANTS MaxN, Years
VARIABLES n, w, lines, got, want, first, year
vars == <<n, w, lines, got, want, first, year>>
Lst(k) == [ i \in 1..k |-> i * 7 ]
Init == /\ n \in 0..MaxN /\ w \in {5, 7, 9, 12} /\ lines = Chunks(Lst(n), w) /\ got = <<>> /\ want = n
        /\ first \in Years /\ year \in {first - 50 + 1, first - 1, first, first + 1, first + 50}
\* one line: as many entries as are still missing, at most w
Read == /\ lines # <<>>
        /\ LET k == IF want - Len(got) > w THEN w ELSE want - Len(got)
           IN got' = got \o [ i \in 1..k |-> lines[1][i] ]
        /\ lines' = Tail(lines) /\ UNCHANGED <<n, w, want, first, year>>
Spec == Init /\ [][Read]_vars
Rebuilt == lines = <<>> => got = Lst(n)
Count == Len(Chunks(Lst(n), w)) = NLines(n, w)
NoStall == lines # <<>> /\ n > 0 => Len(got) < want
Century == FullYear(year % 100, first) = year
=============================================================================
