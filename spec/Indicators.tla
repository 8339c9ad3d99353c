----------------------------- MODULE Indicators -----------------------------
(* Technical indicators over a series of closes (or ranges), in exact        *)
(* arithmetic: every value is an integer numerator over a known denominator. *)
EXTENDS Util

(* ------------------------------ arguments ------------------------------ *)
MinRSI == 14
(* n is the number of candles, -1 when they are missing. *)
Accepts(kind, n, p) ==
    IF kind = "rsi" THEN n >= MinRSI /\ p >= 1 /\ p < n
    ELSE n >= 0 /\ p >= 1 /\ p <= n
Count(kind, n, p) == CASE kind = "sma" -> n - p + 1
                       [] kind = "smma" -> n - p + 1
                       [] kind = "ema" -> n - p
                       [] kind = "rsi" -> n - p

(* ------------------------------- averages ------------------------------ *)
(* Value k of the simple average is SMA(s, p, k) / p. *)
SMA(s, p, k) == Sum(SubSeq(s, k, k + p - 1))

(* The exponential average as a fold: value k is EMA(s, p)[k] / (p (p+1)^k). *)
EMA(s, p, upto) ==
    FoldLeft(LAMBDA acc, k :
                LET prev == IF k = 1 THEN SMA(s, p, 1) ELSE acc.nums[k - 1]
                IN  [nums |-> Append(acc.nums, 2 * s[p + k] * acc.den + prev * (p - 1)),
                     den |-> acc.den * (p + 1)],
             [nums |-> <<>>, den |-> p], [k \in 1..upto |-> k]).nums

(* The smoothed average: value k is SMMA(s, p)[k] / p^k. *)
SMMA(s, p, upto) ==
    FoldLeft(LAMBDA acc, k :
                [nums |-> Append(acc.nums, IF k = 1 THEN SMA(s, p, 1) ELSE acc.nums[k - 1] * (p - 1) + s[p + k - 1] * acc.den),
                 den |-> acc.den * p],
             [nums |-> <<>>, den |-> 1], [k \in 1..upto |-> k]).nums

(* --------------------------------- RSI --------------------------------- *)
Gains(s, p, k) == Sum([j \in 1..p |-> Max2(s[k + j] - s[k + j - 1], 0)])
Losses(s, p, k) == Sum([j \in 1..p |-> Max2(s[k + j - 1] - s[k + j], 0)])

(* ------------------------------ volatility ----------------------------- *)
(* After k candles: EWV(r, b, d)[k] / d^k with beta = b / d. *)
EWV(r, b, d, upto) ==
    FoldLeft(LAMBDA acc, k :
                [nums |-> Append(acc.nums, b * (IF k = 1 THEN 0 ELSE acc.nums[k - 1]) + (d - b) * r[k] * acc.den),
                 den |-> acc.den * d],
             [nums |-> <<>>, den |-> 1], [k \in 1..upto |-> k]).nums

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
=============================================================================
