------------------------------- MODULE MCMeans ------------------------------
(* The laws of Means against the definitions of the indicators, for every    *)
(* pair of small series.                                                     *)
EXTENDS Means, TLC, Json, IOUtils, CSV
CONSTANTS Closes, Changes, MaxLen, Periods

VARIABLES s, u, p
vars == <<s, u, p>>

Init == s = <<>> /\ u = <<>> /\ p \in Periods
Next == \E c \in Closes, d \in Changes \cup {-1} : Len(s) < MaxLen /\ s' = Append(s, c) /\ u' = Append(u, d) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Emit == Len(s') < MaxLen \/ CSVWrite("%1$s", <<ToJson([s |-> s', u |-> u', p |-> p])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Num(ind, x, k) == CASE ind = "sma" -> SMA(x, p, k)
                    [] ind = "ema" -> EMA(x, p, k)[k]
                    [] ind = "smma" -> SMMA(x, p, k)[k]
Den(ind, k) == CASE ind = "sma" -> p
                 [] ind = "ema" -> p * Pow(p + 1, k)
                 [] ind = "smma" -> Pow(p, k)
Values(ind) == IF Len(s) < p THEN 0 ELSE Count(ind, Len(s), p)
C58Averages == \A ind \in Averages : \A k \in 1..Values(ind) :
    LET a == Num(ind, s, k) b == Num(ind, PlusSeries(s, u), k) d == Den(ind, k) r == Reach(ind, s, p, k)
    IN  /\ a >= MinOf(r) * d /\ a <= MaxOf(r) * d
        /\ b = a + Num(ind, u, k)
        /\ Raised(u) => b >= a
(* The volatility with beta 3/4 of ranges that are not negative. *)
C58Volatility == (Raised(u) /\ s # <<>>) =>
    LET n == Len(s) a == EWV(s, 3, 4, n)[n] b == EWV(PlusSeries(s, u), 3, 4, n)[n]
    IN  /\ a >= 0 /\ a <= MaxOf(Reach("ewv", s, p, n)) * Pow(4, n)
        /\ b = a + EWV(u, 3, 4, n)[n] /\ b >= a
(* u is what comes instead of the first m candles of s. *)
Instead(m) == [k \in 1..Len(s) |-> IF k <= m THEN u[k] ELSE s[k]]
From(m, x) == SubSeq(x, m + 1, Len(x))
C59 == \A m \in 0..Len(s) :
    /\ Len(s) - m >= p => \A k \in 1..(Len(s) - m - p + 1) :
          SMA(From(m, s), p, k) = SMA(s, p, m + k) /\ SMA(Instead(m), p, m + k) = SMA(s, p, m + k)
    /\ Len(s) - m > p => \A k \in 1..(Len(s) - m - p) :
          /\ <<Gains(From(m, s), p, k), Losses(From(m, s), p, k)>> = <<Gains(s, p, m + k), Losses(s, p, m + k)>>
          /\ <<Gains(Instead(m), p, m + k), Losses(Instead(m), p, m + k)>> = <<Gains(s, p, m + k), Losses(s, p, m + k)>>
Bars(x) == [k \in 1..Len(x) |-> <<60 * k, x[k] + 10, (x[k] * 3) % 5>>]
Far(m, fs) == {f \in fs : f[1] > 60 * (m + 2)}
C59Fractals == \A m \in 0..Len(s) :
    /\ F!AllFractals(From(m, Bars(s))) = Far(m, F!AllFractals(Bars(s)))
    /\ Far(m, F!AllFractals(Bars(Instead(m)))) = Far(m, F!AllFractals(Bars(s)))
=============================================================================
