------------------------------- MODULE MCTrade ------------------------------
(* Every trade with small amounts; the fee balances cost and notional.       *)
EXTENDS Util, TLC, Json, IOUtils, CSV
CONSTANTS MaxPrice, MaxQty, Costs

CostSet == (-3)..70

VARIABLES trade, done
vars == <<trade, done>>
Fee(t) == IF t.action = "buy" THEN t.cost - t.price * t.qty ELSE t.price * t.qty - t.cost
Init == /\ trade \in [action : {"buy", "sell"}, price : 0..MaxPrice, qty : 0..MaxQty, cost : Costs]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED trade
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson(trade)>>, IOEnv.EMIT_FILE)
C12 == IF trade.action = "buy" THEN trade.cost = trade.price * trade.qty + Fee(trade)
       ELSE trade.cost = trade.price * trade.qty - Fee(trade)
=============================================================================
