------------------------------ MODULE Resample ------------------------------
(* Candle series and their resampling.  A candle is <<t, o, h, l, c, v>>; t   *)
(* is in seconds after some full hour, prices are integers that stand for    *)
(* increasing prices, volumes are integers of a unit.                        *)
EXTENDS Util

T(x) == x[1]
O(x) == x[2]
H(x) == x[3]
L(x) == x[4]
C(x) == x[5]
V(x) == x[6]

Minute(t) == (t \div 60) % 60
GridMinutes(n) == LET m == IF n > 60 THEN n % 60 ELSE n IN IF m = 0 THEN 60 ELSE m
OnGrid(t, n) == Minute(t) % GridMinutes(n) = 0

Spacing(s) == (T(s[2]) - T(s[1])) \div 60

(* Why a request fails; "" when it is possible. *)
Refusal(s, n) ==
    IF Len(s) < 2 THEN ""
    ELSE IF n <= 0 THEN "interval"
    ELSE IF T(s[2]) - T(s[1]) < 60 THEN "spacing"
    ELSE IF n % Spacing(s) # 0 THEN "multiple"
    ELSE IF \A k \in 1..Len(s) : ~OnGrid(T(s[k]), n) THEN "grid"
    ELSE ""

FirstOnGrid(s, n) == CHOOSE k \in 1..Len(s) : OnGrid(T(s[k]), n) /\ \A j \in 1..(k - 1) : ~OnGrid(T(s[j]), n)

(* Number of the interval a time falls into, counted from a start time. *)
Interval(t, start, n) == (t - start) \div (60 * n)

Summary(s, from, to, time) ==
    LET part == SubSeq(s, from, to)
    IN  <<time, O(s[from]), MaxOf(Map(part, H)), MinOf(Map(part, L)), C(s[to]), Sum(Map(part, V))>>

(* One summary for each interval with candles. *)
Resampled(s, n) ==
    LET f == FirstOnGrid(s, n)
        start == T(s[f])
        Num(k) == Interval(T(s[k]), start, n)
        heads == SelectSeq([k \in 1..(Len(s) - f + 1) |-> f + k - 1], LAMBDA k : k = f \/ Num(k) # Num(k - 1))
        last(k) == IF k = Len(heads) THEN Len(s) ELSE heads[k + 1] - 1
    IN  [k \in 1..Len(heads) |-> Summary(s, heads[k], last(k), start + 60 * n * Num(heads[k]))]

(* An observed candle is the expected one; the volume is rounded to 1/vden of the unit. *)
SameCandle(got, want, vden) ==
    /\ SubSeq(got, 1, 5) = SubSeq(want, 1, 5)
    /\ Abs(got[6] - want[6] \div vden) <= 1  \* so that the product fits
    /\ 2 * Abs(got[6] * vden - want[6]) <= vden

SameSeries(got, want, vden) ==
    /\ Len(got) = Len(want)
    /\ \A k \in 1..Len(want) : SameCandle(got[k], want[k], vden)

(* C51: the summary of an interval depends on the candles in it only. A series *)
(* cut short changes the last summary at most; a series from the start of an  *)
(* interval on gives the summaries from there on.                             *)
CutShort(full, early) ==
    /\ Len(early) <= Len(full)
    /\ \A k \in 1..(Len(early) - 1) : early[k] = full[k]
    /\ early # <<>> => T(early[Len(early)]) = T(full[Len(early)])
StartedLater(full, late, t) ==
    LET k == CHOOSE k \in 1..Len(full) : T(full[k]) = t
    IN  late = SubSeq(full, k, Len(full))
StartsInterval(full, t, n) == OnGrid(t, n) /\ \E k \in 1..Len(full) : T(full[k]) = t

MinGap(s) ==
    IF Len(s) < 2 THEN 0
    ELSE MinOf([k \in 1..(Len(s) - 1) |-> Abs(T(s[k + 1]) - T(s[k]))]) \div 60

Gapless(s) == \A k \in 2..Len(s) : T(s[k]) - T(s[k - 1]) = T(s[2]) - T(s[1])
=============================================================================
