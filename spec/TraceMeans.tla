----------------------------- MODULE TraceMeans -----------------------------
(* Judges indicators computed by the code for two series and their sum, and  *)
(* for a series, its end, and its end behind other candles.                  *)
EXTENDS Means, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

(* e.a, e.b, e.sum: values for e.s, e.u and PlusSeries(e.s, e.u). *)
Mean(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C58" =>
         /\ e.errA = "" /\ e.errB = "" /\ e.errSum = ""
         /\ Len(e.a) = (IF e.ind = "ewv" THEN 1 ELSE Count(e.ind, Len(e.s), e.p))
         /\ Within(e.ind, e.s, e.p, e.steps, e.a)
         /\ Additive(e.a, e.b, e.sum)
         /\ NeverLowered(e.u, e.a, e.sum)

Window(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C59" =>
         /\ e.errA = "" /\ e.errB = "" /\ e.errC = ""
         /\ IF e.ind = "fractals" THEN ForgetsFractals(e.m, e.a, e.b, e.c)
            ELSE InRange(e.a) /\ InRange(e.b) /\ InRange(e.c) /\ Forgets(e.m, e.a, e.b, e.c)

Step(e) == CASE e.op = "mean" -> Mean(e)
             [] e.op = "window" -> Window(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
