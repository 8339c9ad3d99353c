----------------------------- MODULE MCPosition -----------------------------
(* Bounded design model of one position: every history of up to MaxTrades    *)
(* trades.  `cash` and `net` are the ghost account of the accepted trades.   *)
EXTENDS Position, TLC, Json, IOUtils, CSV
CONSTANTS Prices, Quantities, MaxTrades, Tol

VARIABLES pos, cash, net, hist
vars == <<pos, cash, net, hist>>

Trades == [action : {"buy", "sell"}, pair : {1}, price : Prices, qty : Quantities]
            \cup [action : {"buy", "sell"}, pair : {2}, price : {1}, qty : {MinOf(SetToSeq(Quantities))}]

Init == \E t \in Trades :
    /\ t.pair = 1
    /\ pos = Opened(t) /\ cash = t.price * t.qty /\ net = t.qty /\ hist = <<t>>

Trade(t) ==
    /\ Len(hist) < MaxTrades
    /\ pos' = Modified(pos, t, Tol)
    /\ hist' = Append(hist, t)
    /\ IF Outcome(pos, t, Tol) = "reject" THEN UNCHANGED <<cash, net>>
       ELSE cash' = cash + CashIn(pos.type, t) /\ net' = net + QtyIn(pos.type, t)

Next == \E t \in Trades : Trade(t)
Spec == Init /\ [][Next]_vars

PosView == <<pos, cash, net, Len(hist)>>
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Done == hist'[Len(hist')]
C08 == pos.open => FMul(pos.price, Whole(pos.qty)) = Whole(cash) /\ pos.qty = net
C08Close == [][pos.open /\ ~pos'.open =>
                 pos'.profit = Whole(ProfitOf(pos.type, cash, net, Done.price))]_vars
C09 == pos.open => pos.qty > 0
C09Step == [][LET o == Outcome(pos, Done, Tol) IN
                /\ pos'.type = pos.type
                /\ ~pos.open => pos' = pos
                /\ (pos.open /\ ~pos'.open) = (o = "close")
                /\ o = "reject" => pos' = pos]_vars
C11 == pos.open => \A p \in Prices :
          LET t == [action |-> IF pos.type = "long" THEN "sell" ELSE "buy", pair |-> pos.pair, price |-> p, qty |-> pos.qty]
          IN  Unrealized(pos, p) = Modified(pos, t, Tol).profit /\ ~Modified(pos, t, Tol).open
(* The same history with buys and sells swapped. *)
Swap(t) == [t EXCEPT !.action = Opposite(@)]
Replay(h) == FoldLeft(LAMBDA p, t : Modified(p, t, Tol), Opened(h[1]), Tail(h))
C45 == LET twin == Replay([k \in 1..Len(hist) |-> Swap(hist[k])])
       IN  /\ twin.type = OppositeType(pos.type)
           /\ twin.open = pos.open /\ twin.price = pos.price /\ twin.qty = pos.qty /\ twin.close = pos.close
           /\ twin.profit = FMul(Whole(-1), pos.profit)
           /\ \A p \in Prices : Unrealized(twin, p) = FMul(Whole(-1), Unrealized(pos, p))
C41Step == [][pos'.type = pos.type /\ pos'.pair = pos.pair]_vars
=============================================================================
