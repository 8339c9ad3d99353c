------------------------------- MODULE MCRsi -------------------------------
(* The relative strength as two sliding sums of gains and losses, for every  *)
(* small continuation of a few starts of twelve candles.                     *)
EXTENDS Indicators, TLC, Json, IOUtils, CSV
CONSTANTS Starts, Closes, MaxTail, Periods

VARIABLES s, p, up, down, values
vars == <<s, p, up, down, values>>

Base == 12
Start(kind) == [k \in 1..Base |-> CASE kind = "flat" -> 2
                                    [] kind = "rise" -> k
                                    [] kind = "fall" -> 14 - k
                                    [] kind = "zigzag" -> 3 + (k % 2) * 4 - (k % 3)]

Ups(q, k) == Sum([j \in 1..k |-> Max2(q[Len(q) - j + 1] - q[Len(q) - j], 0)])
Downs(q, k) == Sum([j \in 1..k |-> Max2(q[Len(q) - j] - q[Len(q) - j + 1], 0)])

Init == /\ \E kind \in Starts : s = Start(kind)
        /\ p \in Periods
        /\ up = Ups(s, Min2(p, Base - 1)) /\ down = Downs(s, Min2(p, Base - 1))
        /\ values = [k \in 1..Max2(Base - p, 0) |-> <<Gains(s, p, k), Losses(s, p, k)>>]

Arrive(c) ==
    /\ Len(s) < Base + MaxTail
    /\ s' = Append(s, c)
    /\ LET n == Len(s)
           new == c - s[n]
           old == IF n > p THEN s[n - p + 1] - s[n - p] ELSE 0
       IN  /\ up' = up + Max2(new, 0) - Max2(old, 0)
           /\ down' = down + Max2(-new, 0) - Max2(-old, 0)
           /\ values' = IF n >= p THEN Append(values, <<up', down'>>) ELSE values
    /\ UNCHANGED p

Next == \E c \in Closes : Arrive(c)
Spec == Init /\ [][Next]_vars
Emit == Len(s') < Base + MaxTail \/ CSVWrite("%1$s", <<ToJson([s |-> s', p |-> p])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
C26 == Accepts("rsi", Len(s), p) =>
    /\ Len(values) = Count("rsi", Len(s), p)
    /\ \A k \in 1..Len(values) : values[k] = <<Gains(s, p, k), Losses(s, p, k)>>
    /\ \A k \in 1..Len(values) : values[k][1] - values[k][2] = s[k + p] - s[k]
    /\ \A k \in 1..Len(values) : values[k][1] >= 0 /\ values[k][2] >= 0
C30Step == [][IsPrefix(values, values')]_vars
=============================================================================
