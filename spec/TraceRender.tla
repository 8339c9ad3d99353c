---------------------------- MODULE TraceRender ----------------------------
(* Judges texts of models printed by the code: e.fields are the values set,  *)
(* e.shown what stands behind each label of the layout.                      *)
EXTENDS Render, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

Rendered(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C39" THEN ShowsAll(e.kind, e.fields, e.shown) ELSE TRUE

Step(e) == Rendered(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
