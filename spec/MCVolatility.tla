---------------------------- MODULE MCVolatility ----------------------------
(* Volatility folded candle by candle.                                       *)
EXTENDS Indicators, TLC, Json, IOUtils, CSV
CONSTANTS Ranges, MaxLen, Betas, Den

VARIABLES r, b, v
vars == <<r, b, v>>

Init == r = <<>> /\ b \in Betas /\ v = 0
Arrive(x) == /\ Len(r) < MaxLen
             /\ r' = Append(r, x)
             /\ v' = b * v + (Den - b) * x * Pow(Den, Len(r))
             /\ UNCHANGED b
Next == \E x \in Ranges : Arrive(x)
Spec == Init /\ [][Next]_vars
Emit == Len(r') < MaxLen \/ CSVWrite("%1$s", <<ToJson([r |-> r', b |-> b, d |-> Den])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
C27 == r # <<>> => v = EWV(r, b, Den, Len(r))[Len(r)]
(* Closed form: a candle seen k candles ago weighs (1 - beta) beta^k. *)
Weights == v = Sum([k \in 1..Len(r) |-> (Den - b) * r[k] * Pow(b, Len(r) - k) * Pow(Den, k - 1)])
Bounded == r # <<>> => 0 <= v /\ v <= MaxOf(r) * Pow(Den, Len(r))
=============================================================================
