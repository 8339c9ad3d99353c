-------------------------------- MODULE MCCut -------------------------------
(* Every file of two saved series, cut behind every byte.                    *)
EXTENDS CandleFile, TLC, Json, IOUtils, CSV
CONSTANTS LineLengths, MaxLen

VARIABLES lens, first, at
vars == <<lens, first, at>>
Lines == [k \in 1..Len(lens) |-> <<k, k, k, k, k, k>>]
Size == Sum(lens)

(* lens: bytes of the lines; the first `first` of them come from the first series. *)
Init == /\ \E n \in 0..MaxLen : lens \in [1..n -> LineLengths] /\ first \in 0..n
        /\ at = Size
Cut == at > 0 /\ at' = at - 1 /\ UNCHANGED <<lens, first>>
Spec == Init /\ [][Cut]_vars
Emit == CSVWrite("%1$s", <<ToJson([n |-> first, m |-> Len(lens) - first, at |-> at'])>>, IOEnv.EMIT_FILE)

Result(b) == Loaded(CutFile(Lines, lens, b))
(* Loaded is a beginning of what was saved, or nothing; everything is there only if at most the last newline is missing. *)
C60 == LET r == Result(at)
       IN  /\ r[1] => r[2] = <<>>
           /\ ~r[1] => /\ r[2] = Take(Lines, Len(r[2]))
                       /\ (r[2] = Lines) = (at >= Size - 1)
           /\ r[1] = InsideLine(lens, at)
(* A shorter file never has more candles. *)
C60Step == [][~Result(at)[1] /\ ~Result(at')[1] => Len(Result(at')[2]) <= Len(Result(at)[2])]_vars
(* Cut where the first series ends the file is the file of the first series. *)
C60Join == Result(EndOf(lens, first)) = <<FALSE, Take(Lines, first)>>
=============================================================================
