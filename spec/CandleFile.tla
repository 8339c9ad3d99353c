----------------------------- MODULE CandleFile -----------------------------
(* Candle files.  A file is absent, unknown (after a failed write), spoiled  *)
(* (not all of it is known, but a line of it is malformed) or a              *)
(* sequence of lines; a line is a candle (a sequence of six value numbers)   *)
(* or malformed (the empty sequence).                                        *)
EXTENDS Util

Absent == [state |-> "absent", lines |-> <<>>]
Unknown == [state |-> "unknown", lines |-> <<>>]
Spoiled == [state |-> "spoiled", lines |-> <<>>]
File(lines) == [state |-> "file", lines |-> lines]
Malformed == <<>>

IsCandleLine(l) == Len(l) = 6
Loadable(f) == f.state = "file" /\ \A k \in 1..Len(f.lines) : IsCandleLine(f.lines[k])

(* Result of loading: <<error?, candles>>. *)
Loaded(f) == IF Loadable(f) THEN <<FALSE, f.lines>> ELSE <<TRUE, <<>>>>

(* A malformed line behind the first `at` lines. *)
Damaged(f, at) ==
    CASE f.state = "file" -> File(Take(f.lines, at) \o <<Malformed>> \o SubSeq(f.lines, at + 1, Len(f.lines)))
      [] f.state = "absent" -> File(<<Malformed>>)
      [] OTHER -> Spoiled

(* A file cut off: whole lines are kept, a rest of a candle line is malformed;  *)
(* what a rest of a malformed line is cannot be known.                          *)
Torn(f, whole, rest) ==
    CASE f.state # "file" -> Unknown
      [] f.state = "file" /\ ~rest -> File(Take(f.lines, whole))
      [] f.state = "file" /\ rest ->
            IF IsCandleLine(f.lines[whole + 1]) THEN File(Append(Take(f.lines, whole), Malformed))
            ELSE IF \A k \in 1..whole : IsCandleLine(f.lines[k]) THEN Unknown ELSE Spoiled

(* C60: a file whose lines have lens[k] bytes, newline included, cut behind byte `at`. *)
EndOf(lens, k) == Sum(SubSeq(lens, 1, k))
WholeLines(lens, at) == Cardinality({k \in 1..Len(lens) : EndOf(lens, k) - 1 <= at})
InsideLine(lens, at) == at # 0 /\ \A k \in 1..Len(lens) : at # EndOf(lens, k) /\ at # EndOf(lens, k) - 1
CutFile(lines, lens, at) == Torn(File(lines), WholeLines(lens, at), InsideLine(lens, at))
=============================================================================
