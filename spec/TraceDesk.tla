----------------------------- MODULE TraceDesk -----------------------------
(* Judges sessions of a desk that uses the code for everything but the cash  *)
(* box: requests, trades, positions.                                         *)
EXTENDS Desk, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, cash, fees, realised, initial
vars == <<i, cash, fees, realised, initial>>
Init == i = 1 /\ cash = 0 /\ fees = 0 /\ realised = 0 /\ initial = 0

Start(e) == e.panic = FALSE /\ cash' = e.cash /\ initial' = e.cash /\ fees' = 0 /\ realised' = 0

OnGrid(x) == x > -1900000000

(* `cost` and `fee` are those of the trade, `profit` is that of a position    *)
(* closed by it; the open positions are in `open` as <<type, qty, mark,       *)
(* unrealized profit>>.                                                       *)
Order(e) ==
    LET flow == IF e.refused THEN 0 ELSE IF e.o.action = "buy" THEN -e.cost ELSE e.cost
        paid == IF e.refused THEN 0 ELSE e.fee
        made == IF e.closed THEN e.profit ELSE 0
    IN  /\ e.panic = FALSE
        /\ Prop = "C53" =>
              /\ e.completed
              /\ OnGrid(e.cost) /\ OnGrid(e.fee) /\ OnGrid(e.profit)
              /\ ~e.refused => e.cost = CostOf(e.o) /\ e.fee = e.o.fee
              /\ \A k \in 1..Len(e.open) : OnGrid(e.open[k].qty) /\ OnGrid(e.open[k].unreal)
              /\ Balanced(cash + flow, initial, realised + made, fees + paid,
                          [k \in 1..Len(e.open) |-> Signed(e.open[k].type, e.open[k].qty)],
                          [k \in 1..Len(e.open) |-> e.open[k].mark],
                          [k \in 1..Len(e.open) |-> e.open[k].unreal])
        /\ cash' = cash + flow /\ fees' = fees + paid /\ realised' = realised + made
        /\ UNCHANGED initial

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "order" -> Order(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
