--------------------------- MODULE MCPositionLaws ---------------------------
(* Positions do not depend on how trades are divided, nor on the unit and the *)
(* origin of prices and the unit of quantities.                               *)
EXTENDS MCPosition

Part(t, q) == [t EXCEPT !.qty = q]
SamePos(a, b) ==
    /\ a.type = b.type /\ a.open = b.open
    /\ IF a.open THEN a.qty = b.qty /\ a.price = b.price ELSE a.close = b.close /\ a.profit = b.profit
C49Step == [][LET t == Done
                  o == Outcome(pos, t, Tol)
              IN  \A q \in 1..(t.qty - 1) :
                     (o = "add" \/ (o \in {"reduce", "close"} /\ q < pos.qty)) =>
                        SamePos(pos', Modified(Modified(pos, Part(t, q), Tol), Part(t, t.qty - q), Tol))]_vars
C49Opened == Len(hist) = 1 => \A q \in 1..(hist[1].qty - 1) :
                SamePos(pos, Modified(Opened(Part(hist[1], q)), Part(hist[1], hist[1].qty - q), Tol))

Rescaled(t, k, c, n) == [t EXCEPT !.price = k * @ + c, !.qty = n * @]
C50 == \A k \in {1, 3}, c \in {0, 5}, n \in {1, 2} :
          LET Twin(p, t) == Modified(p, Rescaled(t, k, c, n), n * Tol)
              twin == FoldLeft(Twin, Opened(Rescaled(hist[1], k, c, n)), Tail(hist))
          IN  /\ twin.type = pos.type /\ twin.open = pos.open /\ twin.qty = n * pos.qty
              /\ twin.price = FAdd(FMul(Whole(k), pos.price), Whole(c))
              /\ ~pos.open => twin.close = k * pos.close + c
              /\ twin.profit = FMul(Whole(k * n), pos.profit)

(* The trades of the history that were accepted, with two of them exchanged, as long as that never closes the position. *)
Accepted(h) == FoldLeft(LAMBDA acc, t : IF Outcome(acc[1], t, Tol) = "reject" THEN acc ELSE <<Modified(acc[1], t, Tol), Append(acc[2], t)>>,
                        <<Opened(h[1]), <<h[1]>>>>, Tail(h))[2]
Swapped(ts, i, j) == [ts EXCEPT ![i] = ts[j], ![j] = ts[i]]
C55 == pos.open =>
          LET ts == Accepted(hist)
          IN  \A i, j \in 1..Len(ts) : i < j =>
                 LET us == Swapped(ts, i, j)
                 IN  (Steady(us) /\ us[1].action = ts[1].action) => SamePos(pos, Replay(us))
=============================================================================
