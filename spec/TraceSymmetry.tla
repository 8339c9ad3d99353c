--------------------------- MODULE TraceSymmetry ---------------------------
(* Judges indicators computed by the code for a series and for a transform   *)
(* of it: e.a and e.b are the values, e.steps the fixed-point steps.         *)
EXTENDS Symmetry, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

Compared(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C47"
       THEN LET t == [kind |-> e.kind, by |-> e.by]
            IN  /\ e.errA = e.errB
                /\ CASE e.ind \in {"sma", "ema", "smma"} -> AverageMoved(t, e.steps, e.a, e.b)
                     [] e.ind = "ewv" -> VolatilityMoved(t, e.a, e.b)
                     [] e.ind = "rsi" -> StrengthMoved(t, e.a, e.b)
                     [] e.ind = "fractals" -> FractalsMoved(t, e.a, e.b)
       ELSE TRUE

Step(e) == Compared(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
