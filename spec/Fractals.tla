------------------------------ MODULE Fractals ------------------------------
(* Williams fractals: confirmed local extremes. A candle is <<time, high,    *)
(* low>>; a fractal is <<time, price, type>>.                                *)
EXTENDS Util

T(c) == c[1]
H(c) == c[2]
L(c) == c[3]

(* The level of a candle in the direction of a fractal: larger is more extreme. *)
Level(c, type) == IF type = "up" THEN H(c) ELSE -L(c)
Price(c, type) == IF type = "up" THEN H(c) ELSE L(c)

(* Two later candles are lower before any is higher. *)
Confirmed(s, k, type) ==
    LET x == Level(s[k], type)
        lower == {j \in (k + 1)..Len(s) : Level(s[j], type) < x}
        higher == {j \in (k + 1)..Len(s) : Level(s[j], type) > x}
    IN  \E j \in lower : /\ \E h \in lower : h < j
                         /\ \A h \in higher : h > j

IsFractal(s, k, type) ==
    /\ k >= 3
    /\ Level(s[k - 1], type) < Level(s[k], type)
    /\ Level(s[k - 2], type) < Level(s[k], type)
    /\ Confirmed(s, k, type)

AllFractals(s) == {<<T(s[k]), Price(s[k], type), type>> :
                     <<k, type>> \in {x \in (1..Len(s)) \X {"up", "down"} : IsFractal(s, x[1], x[2])}}

InTimeOrder(f) == \A k \in 2..Len(f) : f[k - 1][1] <= f[k][1]
=============================================================================
