----------------------------- MODULE MCSymmetry -----------------------------
(* The transforms of Symmetry against the definitions of the indicators, for *)
(* every small series.                                                       *)
EXTENDS Symmetry, TLC, Json, IOUtils, CSV
CONSTANTS Closes, MaxLen, Periods, Factors, Shifts

VARIABLES s, p, t
vars == <<s, p, t>>

Transforms == [kind : {"scale"}, by : Factors] \cup [kind : {"shift"}, by : Shifts \cup {-x : x \in Shifts}] \cup {[kind |-> "mirror", by |-> 0]}

Init == s = <<>> /\ p \in Periods /\ t \in Transforms
Next == \E c \in Closes : Len(s) < MaxLen /\ s' = Append(s, c) /\ UNCHANGED <<p, t>>
Spec == Init /\ [][Next]_vars
Emit == Len(s') < MaxLen \/ CSVWrite("%1$s", <<ToJson([s |-> s', p |-> p, kind |-> t.kind, by |-> t.by])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Ready == Len(s) >= p
M == MoveSeries(t, s)
(* Numerators move with their denominators. *)
Moved(num, den) == CASE t.kind = "scale" -> t.by * num
                     [] t.kind = "shift" -> num + t.by * den
                     [] t.kind = "mirror" -> -num
C47Averages == Ready =>
    /\ \A k \in 1..(Len(s) - p + 1) : SMA(M, p, k) = Moved(SMA(s, p, k), p)
    /\ \A k \in 1..(Len(s) - p) : EMA(M, p, k)[k] = Moved(EMA(s, p, k)[k], p * Pow(p + 1, k))
    /\ \A k \in 1..(Len(s) - p + 1) : SMMA(M, p, k)[k] = Moved(SMMA(s, p, k)[k], Pow(p, k))
(* Gains over gains and losses; in a mirror gains are losses. *)
C47Strength == Len(s) > p => \A k \in 1..(Len(s) - p) :
    LET up == Gains(s, p, k) down == Losses(s, p, k)
        up2 == Gains(M, p, k) down2 == Losses(M, p, k)
    IN  IF t.kind = "mirror" THEN up2 = down /\ down2 = up ELSE up2 * (up + down) = up * (up2 + down2)
(* Closes as highs, with lows below them in two ways. *)
Candles(low) == [k \in 1..Len(s) |-> <<60 * k, s[k] + 10, IF low = "near" THEN s[k] + 9 ELSE (s[k] * 3) % 5>>]
C47Fractals == \A low \in {"near", "far"} :
    F!AllFractals(MoveCandles(t, Candles(low))) = {MoveFractal(t, f) : f \in F!AllFractals(Candles(low))}
=============================================================================
