-------------------------------- MODULE Desk --------------------------------
(* A trading desk: requests are completed, executed as trades, settled in     *)
(* cash and booked into positions, one for each pair.                         *)
EXTENDS Position

(* An order is [pair, action, type, by, qty, price, cur, fee]: the quantity is *)
(* given or the total it amounts to; market orders execute at the current      *)
(* price, others at their own.                                                 *)
ExecutionPrice(o) == IF o.type \in {"market", "close_position"} THEN o.cur ELSE o.price
TotalOf(o) == ExecutionPrice(o) * o.qty
CostOf(o) == IF o.action = "buy" THEN TotalOf(o) + o.fee ELSE TotalOf(o) - o.fee
CashFlow(o) == IF o.action = "buy" THEN -CostOf(o) ELSE CostOf(o)
TradeOf(o) == [action |-> o.action, pair |-> o.pair, price |-> ExecutionPrice(o), qty |-> o.qty]

Signed(type, qty) == IF type = "long" THEN qty ELSE -qty

(* Cash and holdings against initial cash, profits and fees.  `holding`,       *)
(* `mark` and `unreal` are per open position.                                  *)
Balanced(cash, initial, realised, fees, holding, mark, unreal) ==
    cash + Sum([k \in 1..Len(holding) |-> holding[k] * mark[k]])
        = initial + realised + Sum(unreal) - fees
=============================================================================
