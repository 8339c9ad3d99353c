------------------------------ MODULE Position ------------------------------
(* A market position: opened by a trade, changed by trades of the same pair,  *)
(* closed when nothing of it is left.  Quantities are integers of a unit,     *)
(* prices integers; average prices are exact fractions.                       *)
EXTENDS Util

Opposite(a) == IF a = "buy" THEN "sell" ELSE "buy"
TypeOf(a) == IF a = "buy" THEN "long" ELSE "short"
Increases(type, action) == (type = "long") = (action = "buy")

(* --------------------------- exact fractions --------------------------- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
FAdd(x, y) == Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
FSub(x, y) == Frac(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
FMul(x, y) == Frac(x[1] * y[1], x[2] * y[2])
Whole(n) == <<n, 1>>

(* ------------------------------ behaviour ------------------------------ *)
(* A trade is [action, pair, price, qty]; a position keeps the average price *)
(* the way the code does: as a price, not as an amount of cash.             *)
Opened(t) ==
    [type |-> TypeOf(t.action), pair |-> t.pair, open |-> TRUE, price |-> Whole(t.price),
     qty |-> t.qty, close |-> 0, profit |-> <<0, 1>>]

Outcome(pos, t, tol) ==
    CASE t.pair # pos.pair -> "reject"
      [] ~pos.open -> "reject"
      [] Increases(pos.type, t.action) -> "add"
      [] t.qty > pos.qty + tol -> "reject"
      [] t.qty >= pos.qty -> "close"
      [] OTHER -> "reduce"

Unrealized(pos, price) ==
    LET d == IF pos.type = "long" THEN FSub(Whole(price), pos.price) ELSE FSub(pos.price, Whole(price))
    IN  FMul(d, Whole(pos.qty))

Modified(pos, t, tol) ==
    LET o == Outcome(pos, t, tol)
        total == IF o = "add" THEN pos.qty + t.qty ELSE pos.qty - t.qty
        share == FMul(Whole(t.price), Frac(t.qty, pos.qty))
    IN  CASE o = "reject" -> pos
          [] o = "add" -> [pos EXCEPT
                 !.price = FAdd(FMul(pos.price, Frac(pos.qty, total)), FMul(Whole(t.price), Frac(t.qty, total))),
                 !.qty = total]
          [] o = "close" -> [pos EXCEPT !.open = FALSE, !.close = t.price, !.profit = Unrealized(pos, t.price)]
          [] o = "reduce" -> [pos EXCEPT
                 !.price = FMul(FSub(pos.price, share), Frac(pos.qty, total)),
                 !.qty = total]

(* ------------------------------ properties ----------------------------- *)
(* Cash put into a position by a trade, quantity put into it. *)
CashIn(type, t) == IF Increases(type, t.action) THEN t.price * t.qty ELSE -(t.price * t.qty)
QtyIn(type, t) == IF Increases(type, t.action) THEN t.qty ELSE -t.qty

(* Profit of a position with the given cash and quantity in it, closed at a price. *)
ProfitOf(type, cash, qty, price) == IF type = "long" THEN price * qty - cash ELSE cash - price * qty

(* Lifecycle step, on observations: types, openness, closing price and time. *)
LifecycleStep(pos, t, tol, failed, after) ==
    LET o == Outcome(pos, t, tol)
    IN  /\ after.type = pos.type
        /\ failed = (o = "reject")
        /\ CASE o = "close" -> ~after.open /\ after.close = t.price /\ after.ct = t.time
             [] o \in {"add", "reduce"} -> after.open
             [] o = "reject" -> after = pos

(* C49: a trade done at once and in parts leads to the same position. *)
SamePosition(a, b) ==
    /\ b.type = a.type /\ b.pair = a.pair /\ b.open = a.open
    /\ IF a.open THEN b.qty = a.qty /\ b.basis = a.basis
       ELSE b.close = a.close /\ b.ct = a.ct /\ b.profit = a.profit

(* C55: trades of one pair, the first of which opens the position, none of which closes it. *)
LeftOver(ts) ==
    FoldLeft(LAMBDA acc, t : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + QtyIn(TypeOf(ts[1].action), t)), <<>>, ts)
Steady(ts) == ts # <<>> /\ LET left == LeftOver(ts) IN \A k \in 1..Len(left) : left[k] > 0
Bag(ts) == [x \in ToSet(ts) |-> Cardinality({k \in 1..Len(ts) : ts[k] = x})]
Reordered(a, b) == Bag(a) = Bag(b) /\ Steady(a) /\ Steady(b)

(* C50: with every price raised by an amount. *)
Raised(a, b, by) ==
    /\ b.type = a.type /\ b.pair = a.pair /\ b.open = a.open /\ b.qty = a.qty
    /\ b.basis = a.basis + by * a.qty
    /\ ~a.open => b.close = a.close + by /\ b.ct = a.ct
    /\ b.profit = a.profit

(* C41: a position just opened by a trade. *)
Born(t, p) ==
    /\ p.type = TypeOf(t.action) /\ p.pair = t.pair /\ p.open
    /\ p.price = t.price /\ p.qty = t.qty /\ p.ot = t.time
    /\ p.close = 0 /\ p.profit = 0 /\ p.ct = 0 /\ p.blank /\ p.trades = 1

(* C45: positions that mirror each other. *)
OppositeType(type) == IF type = "long" THEN "short" ELSE "long"
Mirrored(a, b) ==
    /\ b.type = OppositeType(a.type)
    /\ b.pair = a.pair /\ b.open = a.open /\ b.qty = a.qty /\ b.basis = a.basis
    /\ b.close = a.close /\ b.ct = a.ct
    /\ a.profit > -1900000000 /\ b.profit = -a.profit
=============================================================================
