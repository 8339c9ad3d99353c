--------------------------- MODULE TraceFractals ---------------------------
(* Judges fractal calls recorded from the code: one call per prefix of a     *)
(* growing series.                                                           *)
EXTENDS Fractals, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, s, last
vars == <<i, s, last>>
Init == i = 1 /\ s = <<>> /\ last = <<>>

Start(e) == e.panic = FALSE /\ s' = <<>> /\ last' = <<>>

(* The series grew by e.more. *)
Grow(e) ==
    /\ e.panic = FALSE
    /\ s' = s \o e.more
    /\ CASE Prop = "C28" -> /\ ToSet(e.out) = AllFractals(s')
                            /\ Len(e.out) = Cardinality(ToSet(e.out))
                            /\ InTimeOrder(e.out)
         [] Prop = "C29" -> IsSubsequence(last, e.out)
         [] OTHER -> TRUE
    /\ last' = e.out

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "grow" -> Grow(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
