-------------------------------- MODULE Means -------------------------------
(* What indicators make of the prices they look at: averages are weighted    *)
(* means of closes, the volatility is one of ranges, and some indicators     *)
(* look back no further than their window.                                   *)
EXTENDS Symmetry

Averages == {"sma", "ema", "smma"}
Windowed == {"sma", "rsi", "fractals"}

PlusSeries(s, u) == [k \in 1..Len(s) |-> s[k] + u[k]]
Raised(u) == \A k \in 1..Len(u) : u[k] >= 0

(* The closes that value k of an average is made of; the volatility is made of all ranges and 0. *)
Reach(ind, s, p, k) == CASE ind = "sma" -> SubSeq(s, k, k + p - 1)
                         [] ind = "ema" -> SubSeq(s, 1, p + k)
                         [] ind = "smma" -> SubSeq(s, 1, p + k - 1)
                         [] ind = "ewv" -> Append(s, 0)

(* C58, for a series s, another one u, and their sum; values in fixed-point steps. *)
Within(ind, s, p, steps, a) ==
    InRange(a) /\ \A k \in 1..Len(a) : LET r == Reach(ind, s, p, k)
                                       IN  a[k] >= MinOf(r) * steps - 1 /\ a[k] <= MaxOf(r) * steps + 1
Additive(a, b, sum) ==
    /\ Len(a) = Len(b) /\ Len(a) = Len(sum) /\ InRange(a) /\ InRange(b) /\ InRange(sum)
    /\ \A k \in 1..Len(a) : Near(sum[k], a[k] + b[k], 3)
NeverLowered(u, a, sum) == Raised(u) => \A k \in 1..Len(a) : sum[k] >= a[k] - 1

(* C59: values a of a series, b of it without its first m candles, c with other candles instead of them. *)
Forgets(m, a, b, c) ==
    /\ Len(c) = Len(a) /\ Len(b) = (IF Len(a) > m THEN Len(a) - m ELSE 0)
    /\ \A k \in 1..Len(b) : Near(b[k], a[m + k], 2) /\ Near(c[m + k], a[m + k], 2)
(* The fractals behind the first m + 2 candles; a time is 60 times the number of a candle. *)
Behind(m, f) == SelectSeq(f, LAMBDA x : x[1] > 60 * (m + 2))
ForgetsFractals(m, a, b, c) == b = Behind(m, a) /\ Behind(m, c) = Behind(m, a)
=============================================================================
