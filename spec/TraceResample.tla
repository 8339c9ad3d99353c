--------------------------- MODULE TraceResample ---------------------------
(* Judges resampling calls recorded from the code.                           *)
EXTENDS Resample, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

MinuteAligned(s) == \A k \in 1..Len(s) : T(s[k]) % 60 = 0

Resampling(e) ==
    /\ e.panic = FALSE
    /\ CASE Prop = "C17" -> IF Len(e.s) >= 2 /\ MinuteAligned(e.s) /\ Refusal(e.s, e.n) = ""
                            THEN e.err = "" /\ SameSeries(e.out, Resampled(e.s, e.n), e.vden) ELSE TRUE
         [] Prop = "C18" -> /\ (e.err # "") = (Refusal(e.s, e.n) # "")
                            /\ IF e.err # "" THEN e.out = <<>> ELSE TRUE
                            /\ IF Len(e.s) < 2 THEN SameSeries(e.out, e.s, e.vden) ELSE TRUE
                            /\ e.after = e.before
         [] OTHER -> TRUE

TwoSteps(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C19" /\ e.errMid = "" /\ Len(e.mid) >= 2
       THEN /\ (e.errTwo # "") = (e.errDirect # "")
            /\ e.two = e.direct
            /\ \A k \in 1..Len(e.two) : \A f \in 1..6 : e.two[k][f] > -1900000000
       ELSE TRUE

Local(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C51" /\ MinuteAligned(e.s)
       THEN /\ (e.errLater # "") = (e.errFull # "") /\ e.later = e.full
            /\ \A k \in 1..Len(e.full) : \A f \in 1..6 : e.full[k][f] > -1900000000
            /\ (e.errEarly = "") => e.errFull = "" /\ CutShort(e.full, e.early)
            /\ (e.errFull = "" /\ e.errLate = "" /\ StartsInterval(e.full, T(e.s[e.from]), e.n)) =>
                   StartedLater(e.full, e.late, T(e.s[e.from]))
            /\ (e.errFull = "" /\ StartsInterval(e.full, T(e.s[e.from]), e.n) /\ Refusal(SubSeq(e.s, e.from, Len(e.s)), e.n) = "") => e.errLate = ""
       ELSE TRUE

Minimum(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C20" => e.val = MinGap(e.s)

Step(e) == CASE e.op = "resample" -> Resampling(e)
             [] e.op = "two" -> TwoSteps(e)
             [] e.op = "local" -> Local(e)
             [] e.op = "min" -> Minimum(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
