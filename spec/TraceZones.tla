----------------------------- MODULE TraceZones -----------------------------
(* Judges the same calls made in different time zones: e.results are the     *)
(* fingerprints of what they returned, e.zones where.                        *)
EXTENDS Zones, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

Asked(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C43" => SameEverywhere(e.results)

Step(e) == Asked(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
