------------------------------ MODULE Symmetry ------------------------------
(* Indicators do not depend on the unit, the origin or the direction of      *)
(* prices.  A transform is [kind, by]: "scale" multiplies every price by a   *)
(* positive number, "shift" adds a number, "mirror" negates every price (and *)
(* so exchanges highs and lows).                                             *)
EXTENDS Indicators

F == INSTANCE Fractals

Move(t, x) == CASE t.kind = "scale" -> t.by * x
                [] t.kind = "shift" -> x + t.by
                [] t.kind = "mirror" -> -x
MoveRange(t, r) == IF t.kind = "scale" THEN t.by * r ELSE r
MoveSeries(t, s) == [k \in 1..Len(s) |-> Move(t, s[k])]
(* A candle is <<time, high, low>>. *)
MoveCandle(t, c) == IF t.kind = "mirror" THEN <<c[1], -c[3], -c[2]>> ELSE <<c[1], Move(t, c[2]), Move(t, c[3])>>
MoveCandles(t, s) == [k \in 1..Len(s) |-> MoveCandle(t, s[k])]
MoveFractal(t, f) == <<f[1], Move(t, f[2]), IF t.kind = "mirror" THEN (IF f[3] = "up" THEN "down" ELSE "up") ELSE f[3]>>

Near(x, y, tol) == x - y <= tol /\ y - x <= tol
InRange(s) == \A k \in 1..Len(s) : s[k] > -900000000 /\ s[k] < 900000000

(* Values before and after, as integers of the same fixed-point steps in the respective unit: *)
(* scaling is absorbed by the unit, so only shift and direction remain visible.               *)
AverageMoved(t, steps, a, b) ==
    /\ Len(a) = Len(b) /\ InRange(a) /\ InRange(b)
    /\ \A k \in 1..Len(a) : Near(b[k], CASE t.kind = "scale" -> a[k]
                                         [] t.kind = "shift" -> a[k] + t.by * steps
                                         [] t.kind = "mirror" -> -a[k], 2)
VolatilityMoved(t, a, b) ==
    Len(a) = Len(b) /\ InRange(a) /\ InRange(b) /\ \A k \in 1..Len(a) : Near(b[k], a[k], 2)
(* Strengths in 1e-4. *)
StrengthMoved(t, a, b) ==
    /\ Len(a) = Len(b) /\ InRange(a) /\ InRange(b)
    /\ \A k \in 1..Len(a) : Near(b[k], IF t.kind = "mirror" THEN 1000000 - a[k] ELSE a[k], 2)
(* Fractals with prices in whole units of the respective scale. *)
FractalsMoved(t, a, b) ==
    LET unscaled == IF t.kind = "scale" THEN [t EXCEPT !.by = 1] ELSE t
    IN  Len(a) = Len(b) /\ {b[k] : k \in 1..Len(b)} = {MoveFractal(unscaled, a[k]) : k \in 1..Len(a)}
=============================================================================
