------------------------------ MODULE MCPeriods ------------------------------
(* Which combinations of series length and period an indicator accepts.      *)
EXTENDS Indicators, TLC, Json, IOUtils, CSV
CONSTANTS MaxLen, MaxPeriod

VARIABLES kind, n, p, answer
vars == <<kind, n, p, answer>>

Kinds == {"sma", "ema", "smma", "rsi"}
Init == kind \in Kinds /\ n \in -1..MaxLen /\ p \in -2..MaxPeriod /\ answer = "none"
Call == /\ answer = "none"
        /\ answer' = IF Accepts(kind, n, p) THEN "values" ELSE "error"
        /\ UNCHANGED <<kind, n, p>>
Next == Call
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson([kind |-> kind, n |-> n, p |-> p])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
C31 == answer # "none" =>
    /\ (answer = "values") => Count(kind, n, p) >= 0 /\ Count(kind, n, p) <= n
    /\ (n = -1 \/ p <= 0 \/ p > n) => answer = "error"
    /\ (kind = "rsi" /\ (n < 14 \/ p = n)) => answer = "error"
    /\ (answer = "values" /\ kind # "ema") => Count(kind, n, p) >= 1
=============================================================================
