--------------------------- MODULE TraceCalendar ---------------------------
(* Judges date parsing and tick times recorded from the code.                *)
EXTENDS Calendar, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

(* e.text as character codes; e.at the parsed instant. *)
Parse(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C37"
       THEN IF IsDate(e.text) THEN e.err = "" /\ e.at = <<DayOf(e.text), 0>> /\ e.nano = 0 /\ e.offset = 0
            ELSE e.err # ""
       ELSE TRUE

(* A tick whose candle is at instant e.t, looked at in e.zone. *)
InZone(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C34"
       THEN /\ e.err = ""
            /\ e.at = e.t /\ e.nano = 0
            /\ IF Covered(e.zone, e.t) THEN e.wall = Wall(e.zone, e.t) ELSE TRUE
       ELSE TRUE

Unknown(e) == e.panic = FALSE /\ (Prop = "C34" => e.err # "")

Step(e) == CASE e.op = "parse" -> Parse(e)
             [] e.op = "location" -> InZone(e)
             [] e.op = "local" -> InZone(e)
             [] e.op = "unknown" -> Unknown(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
