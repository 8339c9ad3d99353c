------------------------------- MODULE MCDesk -------------------------------
(* Every session of a desk with up to MaxOrders orders.                      *)
EXTENDS Desk, TLC, Json, IOUtils, CSV
CONSTANTS Pairs, Prices, Quantities, MaxOrders

VARIABLES cash, fees, realised, book, hist
vars == <<cash, fees, realised, book, hist>>
None == [open |-> FALSE, qty |-> 0]

Orders == {[pair |-> pr, action |-> a, type |-> k[1], by |-> k[2], qty |-> q, price |-> p, cur |-> c, fee |-> q - 1] :
             pr \in Pairs, a \in {"buy", "sell"}, q \in Quantities, p \in Prices, c \in Prices,
             k \in {<<"market", "qty">>, <<"limit", "total">>, <<"close_position", "total">>}}
             
Useful(o) == o.type = "limit" \/ o.price = o.cur
Init == cash = 0 /\ fees = 0 /\ realised = <<0, 1>> /\ book = [p \in Pairs |-> None] /\ hist = <<>>

Refused(o) == book[o.pair].open /\ Outcome(book[o.pair], TradeOf(o), 0) = "reject"
Execute(o) ==
    /\ Len(hist) < MaxOrders /\ Useful(o)
    /\ hist' = Append(hist, o)
    /\ IF Refused(o) THEN UNCHANGED <<cash, fees, realised, book>>
       ELSE LET was == book[o.pair]
                now == IF was.open THEN Modified(was, TradeOf(o), 0) ELSE Opened(TradeOf(o))
            IN  /\ cash' = cash + CashFlow(o) /\ fees' = fees + o.fee
                /\ book' = [book EXCEPT ![o.pair] = now]
                /\ realised' = IF now.open THEN realised ELSE FAdd(realised, now.profit)
Next == \E o \in Orders : Execute(o)
Spec == Init /\ [][Next]_vars
DeskView == <<cash, fees, realised, book, Len(hist)>>
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

(* At any prices, what the desk owns is explained by profits and fees. *)
Opens == SetToSeq({p \in Pairs : book[p].open})
C53 == \A m \in [Pairs -> Prices \cup {0, 9}] :
         LET holdings == FoldLeft(LAMBDA x, p : x + Signed(book[p].type, book[p].qty) * m[p], 0, Opens)
             gains == FoldLeft(LAMBDA x, p : FAdd(x, Unrealized(book[p], m[p])), realised, Opens)
         IN  Whole(cash + holdings) = FAdd(gains, Whole(-fees))
(* A desk without open positions has its cash, the profits less the fees. *)
C53Flat == (\A p \in Pairs : ~book[p].open) => Whole(cash) = FSub(realised, Whole(fees))
=============================================================================
