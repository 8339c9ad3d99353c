------------------------------ MODULE MCZones ------------------------------
(* The same request served by machines in different zones: the clock a       *)
(* machine shows and the grid it resamples on are different things.          *)
EXTENDS Zones, TLC, Json, IOUtils, CSV
CONSTANTS Starts, Spacings, Intervals, Lengths, East, West

VARIABLES s, n, zone, results
vars == <<s, n, zone, results>>

Offsets == East \cup {-w : w \in West}
Candle(t, i) == <<t, 10 + i, 13 + i, 8 + (i % 3), 11 + i, i>>
Series(start, d, len) == [i \in 1..len |-> Candle(60 * (start + d * (i - 1)), i)]

Init == /\ \E start \in Starts, d \in Spacings, len \in Lengths : s = Series(start, d, len)
        /\ n \in Intervals /\ zone = 0 /\ results = <<>>

Answer == IF Refusal(s, n) # "" THEN <<>> ELSE Resampled(s, n)

Move(z) == z # zone /\ zone' = z /\ UNCHANGED <<s, n, results>>
Ask == Len(results) < 2 /\ results' = Append(results, [zone |-> zone, out |-> Answer]) /\ UNCHANGED <<s, n, zone>>

Next == Ask \/ \E z \in Offsets : results # <<>> /\ Move(z)
Spec == Init /\ [][Next]_vars
Emit == Len(results') < 2 \/ results' = results \/ CSVWrite("%1$s", <<ToJson([s |-> s, n |-> n, zone |-> zone])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
C43 == SameEverywhere([k \in 1..Len(results) |-> results[k].out])
(* Zones of whole hours show the grid itself, others do not: there a machine's own clock would give another answer. *)
Witness == \A z \in Offsets :
    IF z % 60 = 0 THEN \A t \in {60 * m : m \in 0..119}, k \in Intervals : OnClockGrid(t, k, z) = OnGrid(t, k)
    ELSE \E t \in {60 * m : m \in 0..119}, k \in Intervals : OnClockGrid(t, k, z) # OnGrid(t, k)
ASSUME Witness
=============================================================================
